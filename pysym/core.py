"""pysym.core -- symbolic values over z3 and a re-execution path explorer.

Numbers are kept as canonical polynomials (ratio of two polynomials with
rational coefficients) over *atoms*.  An atom is a z3 arithmetic term: an input
variable, or an opaque term introduced by an operation that is not polynomial
(integer mod / floor division, ite, square root, exp, ...).  Keeping a canonical
form means that the queries that reach z3 are small; every branch feasibility
and every property assertion is still decided by z3.

Assumption recorded for every check: Python floats are treated as exact reals;
float literals within 1e-13 of a small rational or of a small rational multiple
of sqrt(2), sqrt(3), sqrt(6) are read as that algebraic number.
"""
import math
import numbers
import operator
import time
from fractions import Fraction

import numpy as np
import z3


class Unsupported(Exception):
    """The real code did something the engine cannot represent symbolically."""


class PathAbort(BaseException):
    """Path infeasible (assumption violated); not an error."""


class BudgetExceeded(BaseException):
    """Path or time budget of an obligation ran out."""


# ---------------------------------------------------------------- atoms ----
class _Atoms:
    def __init__(self):
        self.reset()

    def reset(self):
        self.expr = []          # id -> z3 expr
        self.isint = []
        self.lo = []
        self.hi = []
        self.square = []        # id -> Poly or None  (atom**2 rewrites to it)
        self.power = []         # id -> (k, Poly): atom**k rewrites to Poly
        self.key = {}
        self.modinfo = {}       # id -> (Poly, modulus) for residue atoms
        self.axioms = []        # z3 constraints valid for the atoms (global)

    def add(self, key, expr, isint, lo=None, hi=None, square=None):
        if key is not None and key in self.key:
            return self.key[key]
        i = len(self.expr)
        self.expr.append(expr)
        self.isint.append(isint)
        self.lo.append(lo)
        self.hi.append(hi)
        self.square.append(square)
        if key is not None:
            self.key[key] = i
        return i


ATOMS = _Atoms()


# ---------------------------------------------------------------- polys ----
class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.t


P0 = Poly({})
P1 = Poly({(): Fraction(1)})


def _ptext(p):
    return '+'.join('%s%s' % (c, ''.join('*a%d^%d' % ae for ae in m)) for m, c in p.key())


def p_const(c):
    c = Fraction(c)
    return Poly({(): c}) if c else P0


def p_atom(i):
    return Poly({((i, 1),): Fraction(1)})


def p_add(a, b, sb=1):
    if not b.t:
        return a
    if not a.t and sb == 1:
        return b
    r = dict(a.t)
    for m, c in b.t.items():
        v = r.get(m, 0) + (c if sb == 1 else -c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return Poly(r)


def p_scale(a, c):
    if not c:
        return P0
    if c == 1:
        return a
    return Poly({m: v * c for m, v in a.t.items()})


def _mono_mul(m1, m2):
    """-> (monomial, extra Poly or None)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        sq = ATOMS.square[a]
        if sq is not None and d[a] >= 2:
            k, rem = divmod(d[a], 2)
            if rem:
                d[a] = 1
            else:
                del d[a]
            f = p_pow(sq, k)
            extra = f if extra is None else p_mul(extra, f)
    return tuple(sorted(d.items())), extra


def p_mul(a, b):
    if not a.t or not b.t:
        return P0
    if a.is_const():
        return p_scale(b, a.const())
    if b.is_const():
        return p_scale(a, b.const())
    r = {}
    extras = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, ex = _mono_mul(m1, m2)
            c = c1 * c2
            if ex is not None:
                extras.append(p_mul(Poly({m: c}), ex))
                continue
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    out = Poly(r)
    for e in extras:
        out = p_add(out, e)
    if len(out.t) > 60000:
        raise Unsupported('polynomial too large')
    return out


def p_pow(a, k):
    r = P1
    while k:
        if k & 1:
            r = p_mul(r, a)
        k >>= 1
        if k:
            a = p_mul(a, a)
    return r


def p_interval(p):
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        l = h = Fraction(1)
        for a, e in m:
            al, ah = ATOMS.lo[a], ATOMS.hi[a]
            if al is None or ah is None:
                return None, None
            vals = [Fraction(al) ** e, Fraction(ah) ** e]
            if al < 0 < ah:
                vals.append(Fraction(0))
            vl, vh = min(vals), max(vals)
            c4 = [l * vl, l * vh, h * vl, h * vh]
            l, h = min(c4), max(c4)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def p_z3(p, as_int):
    terms = []
    for m, c in sorted(p.t.items()):
        f = None
        for a, e in m:
            x = ATOMS.expr[a]
            if not as_int and ATOMS.isint[a]:
                x = z3.ToReal(x)
            for _ in range(e):
                f = x if f is None else f * x
        if as_int:
            cv = z3.IntVal(int(c))
        else:
            cv = z3.RealVal(str(c))
        if f is None:
            terms.append(cv)
        elif c == 1:
            terms.append(f)
        else:
            terms.append(cv * f)
    if not terms:
        return z3.IntVal(0) if as_int else z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


# ------------------------------------------------- algebraic constants -----
_ROOTS = (2, 3, 6)


def _root_atom(n):
    key = ('root', n)
    if key in ATOMS.key:
        return ATOMS.key[key]
    v = z3.Real('sqrt_%d' % n)
    r = math.sqrt(n)
    i = ATOMS.add(key, v, False, Fraction(r) - Fraction(1, 10**6),
                  Fraction(r) + Fraction(1, 10**6), p_const(n))
    ATOMS.axioms.append(z3.And(v * v == n, v > 0))
    return i


_SNAP_CACHE = {}


def snap_real(x):
    """float -> Poly (constant in Q or in Q(sqrt 2, sqrt 3, sqrt 6))."""
    if isinstance(x, Fraction):
        return p_const(x)
    if isinstance(x, numbers.Integral):
        return p_const(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('non-finite constant in symbolic arithmetic')
    kind = _SNAP_CACHE.get(x)
    if kind is None:
        kind = _snap_kind(x)
        _SNAP_CACHE[x] = kind
    root, fr = kind
    if root is None:
        return p_const(fr)
    return p_scale(p_atom(_root_atom(root)), fr)


def _snap_kind(x):
    tol = 2e-13 * max(1.0, abs(x))
    if abs(x) < 1e-14:
        return (None, Fraction(0))
    ex = Fraction(x)
    if ex.denominator <= 4096:
        return (None, ex)
    fr = ex.limit_denominator(4096)
    if abs(float(fr) - x) < 1e-15 * max(1.0, abs(x)) * 8:
        return (None, fr)
    q = Fraction(x / math.pi).limit_denominator(64)
    if q and abs(float(q) * math.pi - x) < 4e-15 * max(abs(x), 1e-3):
        return (None, q * Fraction(math.pi))
    for n in _ROOTS:
        q = Fraction(x / math.sqrt(n)).limit_denominator(4096)
        if q and abs(float(q) * math.sqrt(n) - x) < tol:
            return (n, q)
    if abs(float(fr) - x) < tol and fr:
        return (None, fr)
    fr = ex.limit_denominator(10 ** 9)
    if fr and abs(float(fr) - x) < 1e-16 * max(1e-3, abs(x)):
        return (None, fr)
    return (None, ex)


# ------------------------------------------------------------- SymBool -----
_CUR = None     # current Explorer run


def current():
    if _CUR is None:
        raise Unsupported('symbolic value used outside a run')
    return _CUR


def is_sym(x):
    return isinstance(x, (SymNum, SymBool, SymC))


class SymBool:
    __slots__ = ('e',)
    __array_priority__ = 2000.0

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return current().decide(self.e)

    __nonzero__ = __bool__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.And(self.e, boolexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Or(self.e, boolexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Xor(self.e, boolexpr(o)))

    __rxor__ = __xor__

    def _num(self):
        return bool_to_int(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return mkbool(self.e == boolexpr(o))
        return self._num() == o

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return mkbool(z3.Xor(self.e, boolexpr(o)))
        return self._num() != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mod__(self, o):
        return self._num() % o

    def __lt__(self, o):
        return self._num() < o

    def __gt__(self, o):
        return self._num() > o

    def __le__(self, o):
        return self._num() <= o

    def __ge__(self, o):
        return self._num() >= o

    def __neg__(self):
        return -self._num()

    def __abs__(self):
        return self._num()

    def conjugate(self):
        return self

    def logical_not(self):
        return ~self

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nparr
        return nparr.ufunc_dispatch(ufunc, method, inputs, kwargs)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def boolexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymNum):
        return boolexpr(x != 0)
    if isinstance(x, numbers.Number):
        return z3.BoolVal(bool(x))
    raise Unsupported('not a boolean: %r' % (x,))


def bool_to_int(b):
    if not isinstance(b, SymBool):
        return int(b)
    key = ('b2i', b.e.sexpr())
    i = ATOMS.add(key, z3.If(b.e, z3.IntVal(1), z3.IntVal(0)), True, 0, 1)
    if ATOMS.square[i] is None:
        ATOMS.square[i] = p_atom(i)
    return SymNum(p_atom(i), P1, True)


def And(*xs):
    xs = _flat(xs)
    if all(isinstance(x, (bool, np.bool_)) for x in xs):
        return all(xs)
    return mkbool(z3.And([boolexpr(x) for x in xs]))


def Or(*xs):
    xs = _flat(xs)
    if all(isinstance(x, (bool, np.bool_)) for x in xs):
        return any(xs)
    return mkbool(z3.Or([boolexpr(x) for x in xs]))


def Not(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple, np.ndarray)):
            out.extend(_flat(list(x)))
        else:
            out.append(x)
    return out


def ite(c, a, b):
    """if-then-else on numbers without forking."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, SymNum):
        c = (c != 0)
        if not isinstance(c, SymBool):
            return a if c else b
    if isinstance(a, (SymC, complex, np.complexfloating)) or isinstance(
            b, (SymC, complex, np.complexfloating)):
        ar, ai = re_im(a)
        br, bi = re_im(b)
        return mkc(ite(c, ar, br), ite(c, ai, bi))
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(
            b, (SymBool, bool, np.bool_)):
        return mkbool(z3.If(c.e, boolexpr(a), boolexpr(b)))
    a, b = lift(a), lift(b)
    if a.num.key() == b.num.key() and a.den.key() == b.den.key():
        return mknum(a.num, a.den, a.isint)
    isint = a.isint and b.isint
    ea, eb = a.z3(not isint), b.z3(not isint)
    e = z3.If(c.e, ea, eb)
    la, ha = a.interval()
    lb, hb = b.interval()
    lo = min(la, lb) if la is not None and lb is not None else None
    hi = max(ha, hb) if ha is not None and hb is not None else None
    return opaque(('ite', c.e.sexpr(), ea.sexpr(), eb.sexpr()), e, isint, lo, hi)


def opaque(key, e, isint, lo=None, hi=None):
    i = ATOMS.add(key, e, isint, lo, hi)
    if isint and lo is not None and lo == 0 and hi == 1 and ATOMS.square[i] is None:
        ATOMS.square[i] = p_atom(i)
    return SymNum(p_atom(i), P1, isint)


# -------------------------------------------------------------- SymNum -----
def lift(x):
    """number -> SymNum (possibly constant)."""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return bool_to_int(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (bool, np.bool_)):
        return SymNum(p_const(int(x)), P1, True)
    if isinstance(x, (int, np.integer)):
        return SymNum(p_const(int(x)), P1, True)
    if isinstance(x, Fraction):
        return SymNum(p_const(x), P1, x.denominator == 1)
    if isinstance(x, (float, np.floating)):
        return SymNum(snap_real(x), P1, False)
    raise Unsupported('cannot lift %r' % type(x))


def _native(p):
    """constant Poly -> float"""
    v = 0.0
    for m, c in p.t.items():
        f = float(c)
        for a, e in m:
            f *= math.sqrt(_root_n(a)) ** e
        v += f
    return v


def _root_n(a):
    for n in _ROOTS:
        if ATOMS.key.get(('root', n)) == a:
            return n
    raise KeyError


def _only_roots(p):
    roots = {ATOMS.key.get(('root', n)) for n in _ROOTS}
    return all(all(a in roots for a, _ in m) for m in p.t)


def mknum(num, den, isint):
    if den.is_const():
        c = den.const()
        if c != 1:
            num = p_scale(num, 1 / c)
            den = P1
        if num.is_const():
            v = num.const()
            if isint and v.denominator == 1:
                return int(v)
            return float(v)
        if len(num.t) <= 8 and _only_roots(num):
            return _native(num)
        return SymNum(num, den, isint)
    if num.is_zero():
        return 0.0
    # make the denominator monic-ish, and cancel exact multiples
    lead = den.t[max(den.t)]
    if lead != 1:
        num = p_scale(num, 1 / lead)
        den = p_scale(den, 1 / lead)
    q = _exact_ratio(num, den)
    if q is not None:
        return mknum(p_const(q), P1, False)
    num, den = _cancel_mono(num, den)
    if den.is_const():
        return mknum(num, den, isint)
    if len(den.t) <= 400 and len(den.t) <= len(num.t) <= 4000:
        q = _exact_div(num, den)
        if q is not None:
            return mknum(q, P1, False)
    return SymNum(num, den, False)


def _deg(p):
    d = {}
    for m in p.t:
        for a, e in m:
            if e > d.get(a, 0):
                d[a] = e
    return d


def _exact_div(n, d):
    """n / d if d divides n as polynomials, else None"""
    dn, dd = _deg(n), _deg(d)
    for a, e in dd.items():
        if dn.get(a, 0) < e or ATOMS.square[a] is not None:
            return None
    for a in dn:
        if ATOMS.square[a] is not None:
            return None
    order = sorted(dn)

    def vec(m):
        x = dict(m)
        return tuple(x.get(a, 0) for a in order)
    N = {vec(m): c for m, c in n.t.items()}
    D = [(vec(m), c) for m, c in d.t.items()]
    lead, lc = max(D)
    lim = {a: dn[a] - dd.get(a, 0) for a in order}
    q = {}
    while N:
        m = max(N)
        e = tuple(x - y for x, y in zip(m, lead))
        if min(e, default=0) < 0 or any(x > lim[a] for x, a in zip(e, order)):
            return None
        c = N[m] / lc
        q[e] = c
        for dm, dc in D:
            k = tuple(x + y for x, y in zip(dm, e))
            v = N.get(k, 0) - c * dc
            if v == 0:
                N.pop(k, None)
            else:
                N[k] = v
    return Poly({tuple((a, x) for a, x in zip(order, e) if x): c for e, c in q.items()})


def _exact_ratio(n, d):
    if len(n.t) != len(d.t):
        return None
    r = None
    for m, c in d.t.items():
        v = n.t.get(m)
        if v is None:
            return None
        if r is None:
            r = v / c
        elif v / c != r:
            return None
    return r


def _cancel_mono(n, d):
    """cancel common monomial factors"""
    com = None
    for p in (n, d):
        for m in p.t:
            dm = dict(m)
            if com is None:
                com = dm
            else:
                com = {a: min(e, dm[a]) for a, e in com.items() if a in dm}
            if not com:
                return n, d
    if not com:
        return n, d

    def strip(p):
        r = {}
        for m, c in p.t.items():
            dm = dict(m)
            for a, e in com.items():
                dm[a] -= e
                if not dm[a]:
                    del dm[a]
            r[tuple(sorted(dm.items()))] = c
        return Poly(r)
    return strip(n), strip(d)


def _other(o):
    """operand check for binary ops: returns SymNum or None"""
    if isinstance(o, SymNum):
        return o
    if isinstance(o, np.ndarray):
        return None
    if isinstance(o, (complex, np.complexfloating, SymC)):
        return None
    if isinstance(o, (numbers.Number, np.generic, SymBool)):
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return None
        return lift(o)
    return None


class SymNum:
    """symbolic int or real"""
    __slots__ = ('num', 'den', 'isint', '_z')
    __array_priority__ = 2000.0

    def __init__(self, num, den, isint):
        self.num = num
        self.den = den
        self.isint = isint
        self._z = None

    # -- conversion
    def z3(self, real=False):
        if self.isint and not real:
            if self._z is None:
                self._z = p_z3(self.num, True)
            return self._z
        n = p_z3(self.num, False)
        if self.den.is_const():
            return n
        return n / p_z3(self.den, False)

    def interval(self):
        if not self.den.is_const():
            return None, None
        return p_interval(self.num)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        # some code compares values by text: values the path condition forces to be equal
        # print alike, forced integers print as the integer
        if _CUR is not None and self.isint:
            return _CUR.text_of(self)
        return self._text()

    def _text(self):
        return 'Sym<%s|%s|%d>' % (_ptext(self.num), _ptext(self.den), self.isint)

    # -- arithmetic
    def _bin(self, o, f):
        b = _other(o)
        if b is None:
            return NotImplemented
        return f(self, b)

    def __add__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC(self, 0) + o
        b = _other(o)
        if b is None:
            return _inf_arith('add', self, o)
        return n_add(self, b)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC(self, 0) - o
        b = _other(o)
        if b is None:
            return _inf_arith('sub', self, o)
        return n_add(self, b, -1)

    def __rsub__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return mkc_of(o) - SymC(self, 0)
        if isinstance(o, list) and not self.isint:
            return _as_array(o) - self
        b = _other(o)
        if b is None:
            return NotImplemented
        return n_add(b, self, -1)

    def __mul__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC(self, 0) * o
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        b = _other(o)
        if b is None:
            return NotImplemented
        return n_mul(self, b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC(self, 0) / o
        b = _other(o)
        if b is None:
            return NotImplemented
        return n_div(self, b)

    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return mkc_of(o) / SymC(self, 0)
        b = _other(o)
        if b is None:
            return NotImplemented
        return n_div(b, self)

    def __floordiv__(self, o):
        b = _other(o)
        if b is None:
            return NotImplemented
        return n_floordiv(self, b)

    def __rfloordiv__(self, o):
        b = _other(o)
        if b is None:
            return NotImplemented
        return n_floordiv(b, self)

    def __mod__(self, o):
        b = _other(o)
        if b is None:
            return NotImplemented
        return n_mod(self, b)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        b = _other(o)
        if b is None:
            return NotImplemented
        return n_mod(b, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        if mod is not None:
            return (self ** o) % mod
        return n_pow(self, o)

    def __rpow__(self, o):
        return n_pow(o, self)

    def __neg__(self):
        return mknum(p_scale(self.num, Fraction(-1)), self.den, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.interval()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        return ite(self >= 0, self, -self)

    # -- bit operations
    def __xor__(self, o):
        return n_bit('xor', self, o)
    __rxor__ = __xor__

    def __and__(self, o):
        return n_bit('and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        return n_bit('or', self, o)
    __ror__ = __or__

    def __lshift__(self, o):
        return self * (1 << operator.index(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << operator.index(o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return -self - 1

    # -- comparisons
    def __eq__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC(self, 0) == o
        b = _other(o)
        if b is None:
            if isinstance(o, np.ndarray):
                return NotImplemented
            return False
        return n_cmp(self, b, 'eq')

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return Not(self == o)

    def __lt__(self, o):
        b = _other(o)
        return _inf_cmp(self, o, 'lt') if b is None else n_cmp(self, b, 'lt')

    def __le__(self, o):
        b = _other(o)
        return _inf_cmp(self, o, 'le') if b is None else n_cmp(self, b, 'le')

    def __gt__(self, o):
        b = _other(o)
        return _inf_cmp(self, o, 'gt') if b is None else n_cmp(b, self, 'lt')

    def __ge__(self, o):
        b = _other(o)
        return _inf_cmp(self, o, 'ge') if b is None else n_cmp(b, self, 'le')

    def __bool__(self):
        c = self != 0
        return bool(c)

    # -- concretisation points: split over all feasible values
    def __index__(self):
        if not self.isint:
            raise TypeError('symbolic real used as an index')
        return current().split(self)

    def __int__(self):
        if self.isint:
            return current().split(self)
        return operator.index(sym_trunc(self))

    __long__ = __int__

    def __trunc__(self):
        return sym_trunc(self)

    def __float__(self):
        if self.isint:
            return float(current().split(self))
        raise Unsupported('float() of a symbolic real')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, nd=None):
        if self.isint:
            return self
        if nd in (None, 0):
            return sym_rint(self)
        raise Unsupported('round(symbolic, n)')

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __hash__(self):
        if self.isint:
            return hash(current().split(self))
        raise Unsupported('hash of a symbolic real')

    def __format__(self, spec):
        if not self.isint and _CUR is not None:
            return '<%s>' % self._text()       # only for messages
        return format(self.__index__() if self.isint else float(self), spec)

    def __str__(self):
        if _CUR is None or not self.isint:
            return repr(self)
        return str(self.__index__())

    # -- number protocol used by numpy object loops and by numpy-like code
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_fun('exp', self)

    def log(self):
        return sym_fun('log', self)

    def cos(self):
        return sym_fun('cos', self)

    def sin(self):
        return sym_fun('sin', self)

    def rint(self):
        return sym_rint(self)

    def floor(self):
        return sym_floor(self)

    def ceil(self):
        return -sym_floor(-self)

    def astype(self, dtype, copy=True):
        return cast(self, dtype)

    def copy(self):
        return self

    def is_integer(self):
        if self.isint:
            return True
        return self == sym_floor(self)

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nparr
        return nparr.ufunc_dispatch(ufunc, method, inputs, kwargs)


numbers.Real.register(SymNum)   # isinstance(x, numbers.Number) guards


def _inf_arith(op, a, o):
    if isinstance(o, (float, np.floating)):
        return float(o) if op == 'add' else -float(o)
    return NotImplemented


def _inf_cmp(a, o, op):
    if isinstance(o, (float, np.floating)):
        if math.isnan(o):
            return False
        return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0}[op]
    return NotImplemented


def n_add(a, b, s=1):
    isint = a.isint and b.isint
    if a.den.is_const() and b.den.is_const():
        return mknum(p_add(a.num, b.num, s), P1, isint)
    if a.den.key() == b.den.key():
        return mknum(p_add(a.num, b.num, s), a.den, False)
    return mknum(p_add(p_mul(a.num, b.den), p_mul(b.num, a.den), s),
                 p_mul(a.den, b.den), False)


def n_mul(a, b):
    isint = a.isint and b.isint
    if a.den.is_const() and b.den.is_const():
        return mknum(p_mul(a.num, b.num), P1, isint)
    # cancel num/den pairs that are structurally equal
    an, ad, bn, bd = a.num, a.den, b.num, b.den
    if not ad.is_const():
        r = _exact_ratio(bn, ad)
        if r is not None:
            bn, ad = p_const(r), P1
    if not bd.is_const():
        r = _exact_ratio(an, bd)
        if r is not None:
            an, bd = p_const(r), P1
    return mknum(p_mul(an, bn), p_mul(ad, bd), isint)


def n_div(a, b):
    if b.num.is_const():
        c = b.num.const()
        if c == 0:
            raise ZeroDivisionError('division by zero')
        return n_mul(SymNum(p_scale(a.num, 1 / c), a.den, False), SymNum(b.den, P1, False))
    else:
        z = n_cmp(b, lift(0), 'eq')
        if z is not False and bool(z):
            raise ZeroDivisionError('division by zero')
    inv = SymNum(b.den, b.num, False)   # b.num is not constant here
    return n_mul(SymNum(a.num, a.den, False), inv)


def n_floordiv(a, b):
    if not (a.isint and b.isint):
        return sym_floor(lift(n_div(a, b)))
    if not b.num.is_const():
        return n_floordiv(a, lift(current().split(b)))
    m = int(b.num.const())
    if m == 0:
        raise ZeroDivisionError
    if m < 0:
        return n_floordiv(lift(-a), lift(-m))
    # split off exact multiples
    q = {}
    r = {}
    for mono, c in a.num.t.items():
        k = c // m
        if k:
            q[mono] = Fraction(k)
        if c - k * m:
            r[mono] = c - k * m
    rp = Poly(r)
    qs = mknum(Poly(q), P1, True)
    if rp.is_const():
        return qs + int(rp.const()) // m
    lo, hi = p_interval(rp)
    if lo is not None and lo >= 0 and hi < m:
        return qs
    e = p_z3(rp, True) / z3.IntVal(m)
    lo2 = lo // m if lo is not None else None
    hi2 = hi // m if hi is not None else None
    return qs + opaque(('fdiv', rp.key(), m), e, True, lo2, hi2)


def _int_valued(a):
    return a.den.is_const() and all(c.denominator == 1 for c in a.num.t.values()) and all(
        ATOMS.isint[x] for m in a.num.t for x, _ in m)


def _mod_normal(p, m):
    """representative of p modulo m: coefficients reduced, inner residues expanded"""
    for _ in range(50):
        r = {}
        for mono, c in p.t.items():
            v = c % m
            if v:
                r[mono] = v
        p = Poly(r)
        hit = None
        for mono, c in p.t.items():
            for a, e in mono:
                info = ATOMS.modinfo.get(a)
                if e == 1 and info is not None and (c * info[1]) % m == 0:
                    hit = (mono, c, a, info)
                    break
            if hit:
                break
        if hit is None:
            return p
        mono, c, a, info = hit
        rest = tuple(x for x in mono if x[0] != a)
        t = dict(p.t)
        del t[mono]
        p = p_add(Poly(t), p_mul(Poly({rest: c}), info[0]))
    return p


def n_mod(a, b):
    if not (a.isint and b.isint):
        if _int_valued(a) and _int_valued(b):
            r = n_mod(SymNum(a.num, P1, True), SymNum(b.num, P1, True))
            return SymNum(r.num, P1, False) if isinstance(r, SymNum) else float(r)
        q = sym_floor(lift(n_div(a, b)))
        return lift(a) - q * lift(b)
    if not b.num.is_const():
        b = lift(current().split(b))
    m = int(b.num.const())
    if m == 0:
        raise ZeroDivisionError
    if m < 0:
        return -n_mod(lift(-a), lift(-m))
    rp = _mod_normal(a.num, m)
    if rp.is_const():
        return int(rp.const()) % m
    lo, hi = p_interval(rp)
    if lo is not None and lo >= 0 and hi < m:
        return SymNum(rp, P1, True)
    lo, hi = p_interval(a.num)
    if lo is not None and lo >= 0 and hi < m:
        return a
    e = p_z3(rp, True) % z3.IntVal(m)
    r = opaque(('mod', rp.key(), m), e, True, 0, m - 1)
    ATOMS.modinfo[ATOMS.key[('mod', rp.key(), m)]] = (rp, m)
    return r


def n_pow(a, b):
    if isinstance(b, (float, np.floating)) and float(b).is_integer() and abs(b) < 64:
        b = int(b)
        real = True
    else:
        real = False
    if isinstance(b, np.integer):
        b = int(b)
    if isinstance(b, int):
        a_ = lift(a)
        if b >= 0:
            r = mknum(p_pow(a_.num, b), p_pow(a_.den, b), a_.isint)
            return float(r) if real and isinstance(r, int) else r
        return n_div(lift(1), lift(n_pow(a, -b)))
    if isinstance(b, (float, np.floating)):
        if float(b) == 0.5:
            return sym_sqrt(lift(a))
        if float(b) == -0.5:
            return 1 / sym_sqrt(lift(a))
        if float(2 * b).is_integer() and abs(b) < 32:
            return n_pow(sym_sqrt(lift(a)), int(2 * b))
    if isinstance(b, SymNum) and b.isint:
        if isinstance(a, (int, np.integer)) and int(a) in (1, -1):
            if int(a) == 1:
                return 1
            return 1 - 2 * (b % 2)
        lo, hi = b.interval()
        if lo is not None and hi - lo <= 64:
            return n_pow(a, current().split(b))
    return sym_fun('pow', lift(a), lift(b))


def n_cmp(a, b, op):
    """op in eq, lt, le; returns bool or SymBool"""
    isint = a.isint and b.isint
    if a.den.is_const() and b.den.is_const():
        d = p_add(a.num, b.num, -1)
        lo, hi = p_interval(d)
        if lo is not None:
            if op == 'eq' and (lo > 0 or hi < 0):
                return False
            if op == 'lt':
                if hi < 0:
                    return True
                if lo >= 0:
                    return False
            if op == 'le':
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
        if d.is_const():
            v = d.const()
            return {'eq': v == 0, 'lt': v < 0, 'le': v <= 0}[op]
        if all(ATOMS.isint[x] for m in d.t for x, _ in m):
            # clear denominators, compare over the integers
            l = 1
            for c in d.t.values():
                l = l * c.denominator // math.gcd(l, c.denominator)
            d2 = p_scale(d, Fraction(l))
            e = p_z3(d2, True)
            z = z3.IntVal(0)
        else:
            e = p_z3(d, False)
            z = z3.RealVal(0)
        return mkbool({'eq': e == z, 'lt': e < z, 'le': e <= z}[op])
    if op == 'eq':
        d = p_add(p_mul(a.num, b.den), p_mul(b.num, a.den), -1)
        if d.is_zero():
            return True
        return mkbool(p_z3(d, False) == 0)
    # a.num/a.den ? b.num/b.den  : multiply by (den)^2
    den = p_mul(a.den, b.den)
    d = p_add(p_mul(a.num, b.den), p_mul(b.num, a.den), -1)
    if d.is_zero():
        return op == 'le'
    lo, hi = p_interval(den)
    dz = p_z3(d, False)
    if lo is not None and lo > 0:
        return mkbool(dz < 0 if op == 'lt' else dz <= 0)
    if hi is not None and hi < 0:
        return mkbool(dz > 0 if op == 'lt' else dz >= 0)
    nz = p_z3(den, False)
    if op == 'lt':
        return mkbool(z3.Or(z3.And(nz > 0, dz < 0), z3.And(nz < 0, dz > 0)))
    return mkbool(z3.Or(z3.And(nz > 0, dz <= 0), z3.And(nz < 0, dz >= 0)))


def n_bit(op, a, o):
    if isinstance(o, np.ndarray):
        return NotImplemented
    b = _other(o)
    if b is None:
        return NotImplemented
    if not (a.isint and b.isint):
        raise TypeError('bit operation on reals')
    la, ha = a.interval()
    lb, hb = b.interval()
    if la is not None and lb is not None and la >= 0 and lb >= 0 and ha <= 1 and hb <= 1:
        if op == 'xor':
            return a + b - 2 * a * b
        if op == 'and':
            return a * b
        return a + b - a * b
    if op == 'and' and b.num.is_const():
        k = int(b.num.const())
        if k >= 0 and (k & (k + 1)) == 0:
            return n_mod(a, lift(k + 1))
        if k > 0 and (k & (k - 1)) == 0:
            return ((a // k) % 2) * k
    if op == 'and' and a.num.is_const():
        return n_bit(op, b, a)
    if la is None or lb is None or la < 0 or lb < 0:
        raise Unsupported('bit operation on unbounded symbolic ints')
    w = max(int(ha).bit_length(), int(hb).bit_length(), 1)
    r = 0
    for i in range(w):
        x = (a // (1 << i)) % 2 if not a.num.is_const() else (int(a.num.const()) >> i) & 1
        y = (b // (1 << i)) % 2 if not b.num.is_const() else (int(b.num.const()) >> i) & 1
        if op == 'xor':
            v = x + y - 2 * x * y
        elif op == 'and':
            v = x * y
        else:
            v = x + y - x * y
        r = r + (1 << i) * v
    return r


# ----------------------------------------------------- non-polynomial ------
def sym_floor(a):
    if not isinstance(a, SymNum):
        return math.floor(a)
    if a.isint:
        return a
    # integer-valued polynomial?
    if a.den.is_const() and all(c.denominator == 1 for c in a.num.t.values()) and all(
            ATOMS.isint[x] for m in a.num.t for x, _ in m):
        return SymNum(a.num, P1, True)
    # rational with integer atoms: floor(num/l)
    if a.den.is_const() and all(ATOMS.isint[x] for m in a.num.t for x, _ in m):
        l = 1
        for c in a.num.t.values():
            l = l * c.denominator // math.gcd(l, c.denominator)
        return n_floordiv(SymNum(p_scale(a.num, Fraction(l)), P1, True), lift(l))
    e = a.z3(True)
    lo, hi = a.interval()
    return opaque(('floor', e.sexpr()), z3.ToInt(e), True,
                  math.floor(lo) if lo is not None else None,
                  math.floor(hi) if hi is not None else None)


def sym_trunc(a):
    if not isinstance(a, SymNum):
        return int(a)
    if a.isint:
        return a
    lo, hi = a.interval()
    if lo is not None and lo >= 0:
        return sym_floor(a)
    if hi is not None and hi <= 0:
        return -sym_floor(-a)
    return ite(a >= 0, sym_floor(a), -sym_floor(-a))


def sym_rint(a):
    """round half to even"""
    if not isinstance(a, SymNum):
        return round(a)
    if a.isint:
        return a
    f = sym_floor(a)
    if not isinstance(f, SymNum):
        d = a - f
        half = Fraction(1, 2)
        return ite(d < half, f, ite(d > half, f + 1, f + (f % 2)))
    d = a - f
    half = Fraction(1, 2)
    return ite(d < half, f, ite(d > half, f + 1, f + (f % 2)))


def sym_sqrt(a):
    if not isinstance(a, SymNum):
        return math.sqrt(a)
    if not a.den.is_const():
        neg = n_cmp(a, lift(0), 'lt')
        if neg is not False and bool(neg):
            raise ValueError('math domain error')
        # sqrt(n/d) = sqrt(n*d)/|d|, so that squaring it back cancels syntactically
        d = SymNum(a.den, P1, False)
        pos = n_cmp(lift(0), d, 'lt')
        if pos is True or bool(pos):
            den = a.den
        else:
            den = p_scale(a.den, Fraction(-1))
        nd = mknum(p_mul(a.num, a.den), P1, False)
        return (sym_sqrt(nd) if isinstance(nd, SymNum) else math.sqrt(nd)) / SymNum(den, P1, False)
    r = _perfect_square(a.num)
    if r is not None:
        return abs(mknum(r, P1, a.isint))
    neg = n_cmp(a, lift(0), 'lt')
    if neg is not False and bool(neg):
        raise ValueError('math domain error')
    key = ('sqrt', a.num.key())
    if key not in ATOMS.key:
        v = z3.Real('sqrt!%d' % len(ATOMS.expr))
        lo, hi = a.interval()
        i = ATOMS.add(key, v, False, 0 if hi is not None else None,
                      Fraction(math.isqrt(math.ceil(hi)) + 1) if hi is not None else None)
        ATOMS.square[i] = a.num
        e = p_z3(a.num, False)
        ATOMS.axioms.append(z3.And(v >= 0, z3.Implies(e >= 0, v * v == e)))
    return SymNum(p_atom(ATOMS.key[key]), P1, False)


def _perfect_square(p):
    """sqrt of c*m**2 (single monomial) if it is one"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c < 0 or any(e % 2 for _, e in m):
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    return Poly({tuple((a, e // 2) for a, e in m): Fraction(n, d)})


_FUNS = {}


def sym_fun(name, *args):
    """uninterpreted (congruent) real function with a few valid axioms"""
    args = [lift(a) for a in args]
    if name == 'pow' and args[0].num.is_const() and args[0].num.const() == 1:
        return 1.0
    key = (name,) + tuple((a.num.key(), a.den.key()) for a in args)
    if key not in ATOMS.key:
        f = _FUNS.get((name, len(args)))
        if f is None:
            f = z3.Function('f_' + name, *([z3.RealSort()] * (len(args) + 1)))
            _FUNS[(name, len(args))] = f
        es = [a.z3(True) for a in args]
        t = f(*es)
        ATOMS.add(key, t, False)
        ax = ATOMS.axioms
        if name == 'exp':
            ax.append(t > 0)
            ax.append(z3.Implies(es[0] < 0, t < 1))
            ax.append(z3.Implies(es[0] > 0, t > 1))
            ax.append(z3.Implies(es[0] == 0, t == 1))
        elif name == 'log':
            ax.append(z3.Implies(z3.And(es[0] > 0, es[0] < 1), t < 0))
            ax.append(z3.Implies(es[0] > 1, t > 0))
            ax.append(z3.Implies(es[0] == 1, t == 0))
        elif name == 'pow':
            ax.append(z3.Implies(es[0] > 0, t > 0))
            ax.append(z3.Implies(es[1] == 0, t == 1))
            ax.append(z3.Implies(es[1] == 1, t == es[0]))
        elif name in ('cos', 'sin'):
            ax.append(z3.And(t >= -1, t <= 1))
        elif name == 'erf':
            ax.append(z3.And(t > -1, t < 1))
            ax.append((es[0] > 0) == (t > 0))
            ax.append((es[0] < 0) == (t < 0))
            for x0 in (0.5, 1.0, math.sqrt(2) - 2e-5, math.sqrt(2), math.sqrt(2) + 2e-5, 2.0):
                lo, hi = Fraction(x0) - Fraction(1, 10**12), Fraction(x0) + Fraction(1, 10**12)
                ax.append(z3.Implies(es[0] >= z3.RealVal(str(hi)),
                                     t >= z3.RealVal(str(Fraction(math.erf(x0)) - Fraction(1, 10**12)))))
                ax.append(z3.Implies(es[0] <= z3.RealVal(str(lo)),
                                     t <= z3.RealVal(str(Fraction(math.erf(x0)) + Fraction(1, 10**12)))))
        if name in ('erf', 'exp', 'log'):
            # strictly increasing
            for k2, i2 in list(ATOMS.key.items()):
                if k2[0] == name and k2 != key and len(k2) == 2:
                    e2 = SymNum(Poly(dict(k2[1][0])), Poly(dict(k2[1][1])), False).z3(True)
                    t2 = ATOMS.expr[i2]
                    dom = z3.And(e2 > 0, es[0] > 0) if name == 'log' else True
                    ax.append(z3.Implies(dom, (e2 < es[0]) == (t2 < t)) if dom is not True
                              else (e2 < es[0]) == (t2 < t))
    return SymNum(p_atom(ATOMS.key[key]), P1, False)


def cast(x, dtype):
    """value.astype(dtype) for a symbolic scalar"""
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return x
    if k in 'iu':
        if isinstance(x, SymC):
            raise Unsupported('complex to int')
        if isinstance(x, SymBool):
            return bool_to_int(x)
        return sym_trunc(x)
    if k == 'f':
        if isinstance(x, SymC):
            return x.re
        if isinstance(x, SymBool):
            x = bool_to_int(x)
        return SymNum(x.num, x.den, False) if isinstance(x, SymNum) else x
    if k == 'c':
        return x
    if k == 'b':
        if isinstance(x, SymBool):
            return x
        return x != 0
    return x


# ------------------------------------------------------------ complex ------
class SymC:
    __slots__ = ('re', 'im')
    __array_priority__ = 2000.0

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymC(self.re, -self.im)

    conj = conjugate

    def __repr__(self):
        return 'SymC(%r,%r)' % (self.re, self.im)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r, i = re_im(o)
        return mkc(self.re + r, self.im + i)

    def __radd__(self, o):
        if isinstance(o, list):
            return _as_array(o) + self
        return self + o

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r, i = re_im(o)
        return mkc(self.re - r, self.im - i)

    def __rsub__(self, o):
        if isinstance(o, list):
            return _as_array(o) - self
        r, i = re_im(o)
        return mkc(r - self.re, i - self.im)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r, i = re_im(o)
        return mkc(self.re * r - self.im * i, self.re * i + self.im * r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r, i = re_im(o)
        if not is_sym(i) and i == 0:
            return mkc(self.re / r, self.im / r)
        d = r * r + i * i
        return mkc((self.re * r + self.im * i) / d, (self.im * r - self.re * i) / d)

    def __rtruediv__(self, o):
        if isinstance(o, list):
            return _as_array(o) / self
        return mkc_of(o) / self

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, k):
        k = operator.index(k) if not isinstance(k, float) else k
        if isinstance(k, float) and k.is_integer():
            k = int(k)
        if not isinstance(k, int) or k < 0:
            raise Unsupported('complex power')
        r = 1
        for _ in range(k):
            r = self * r
        return r

    def __abs__(self):
        s = self.re * self.re + self.im * self.im
        return sym_sqrt(s) if is_sym(s) else math.sqrt(s)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        try:
            r, i = re_im(o)
        except Unsupported:
            return False
        return And(self.re == r, self.im == i)

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return Not(self == o)

    def __bool__(self):
        return bool(Or(self.re != 0, self.im != 0))

    def __hash__(self):
        raise Unsupported('hash of symbolic complex')

    def __complex__(self):
        raise Unsupported('complex() of symbolic complex')

    def __float__(self):
        raise Unsupported('float() of symbolic complex')

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dtype, copy=True):
        return cast(self, dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nparr
        return nparr.ufunc_dispatch(ufunc, method, inputs, kwargs)


numbers.Complex.register(SymC)


def _as_array(o):
    """list combined with a numpy scalar"""
    from . import nparr
    return nparr.from_seq(o)


def re_im(x):
    if isinstance(x, SymC):
        return x.re, x.im
    if isinstance(x, (SymNum, SymBool)):
        return x, 0
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag)
    if isinstance(x, numbers.Number):
        return x, 0
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return re_im(x.item())
    raise Unsupported('not complex: %r' % type(x))


def mkc(r, i):
    if not is_sym(i) and i == 0:
        return r
    if not is_sym(r) and not is_sym(i):
        return complex(r, i)
    return SymC(r, i)


def mkc_of(o):
    r, i = re_im(o)
    return SymC(r, i)


# ------------------------------------------------------------ explorer -----
class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.forks = 0
        self.unknown = 0

    def as_dict(self):
        return dict(self.__dict__)


class Counterexample(Exception):
    def __init__(self, label, values, detail=''):
        Exception.__init__(self, label)
        self.label = label
        self.values = values
        self.detail = detail


class Explorer:
    """Explores every path of harness(ctx) by re-execution."""

    def __init__(self, max_paths=20000, time_limit=600.0, query_ms=20000):
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.query_ms = query_ms
        self.stats = Stats()
        self.incomplete = []

    # -- solver helpers
    def _check(self, *assumptions, ms=None):
        t = time.time()
        self.stats.queries += 1
        if t > self.deadline:
            raise BudgetExceeded('time budget')
        self._sync_axioms()
        self.solver.set('timeout', int(ms or self.query_ms))
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            s2 = z3.SolverFor('QF_NRA')
            s2.set('timeout', int(ms or self.query_ms))
            s2.add(self.solver.assertions())
            s2.add(*assumptions)
            try:
                r2 = s2.check()
            except z3.Z3Exception:
                r2 = z3.unknown
            if r2 != z3.unknown:
                r = r2
                self._alt_model = s2.model() if r2 == z3.sat else None
                self.stats.solver_s += time.time() - t
                return r
            self.stats.unknown += 1
        self._alt_model = None
        self.stats.solver_s += time.time() - t
        return r

    def _model(self):
        return self._alt_model if self._alt_model is not None else self.solver.model()

    def _sync_axioms(self):
        while self._nax < len(ATOMS.axioms):
            self.solver.add(ATOMS.axioms[self._nax])
            self._nax += 1

    # -- branching
    def decide(self, e):
        if self.pos < len(self.trail):
            kind, val, _ = self.trail[self.pos]
            if kind != 'b':
                raise Unsupported('non-deterministic harness replay')
            self.pos += 1
            self.solver.add(e if val else z3.Not(e))
            return val
        rt = self._check(e)
        if rt == z3.unsat:
            self.trail.append(('b', False, False))
            self.pos += 1
            self.solver.add(z3.Not(e))
            return False
        rf = self._check(z3.Not(e))
        if rf == z3.unsat:
            if rt == z3.unknown:
                pass
            self.trail.append(('b', True, False))
            self.pos += 1
            self.solver.add(e)
            return True
        self.stats.forks += 1
        self.trail.append(('b', True, True))
        self.pos += 1
        self.solver.add(e)
        return True

    def split(self, num):
        """pick a concrete value; all other feasible values are explored too"""
        if num.num.is_const():
            return int(num.num.const())
        e = num.z3()
        while True:
            if self.pos < len(self.trail):
                kind, (v, take), _ = self.trail[self.pos]
                if kind != 's':
                    raise Unsupported('non-deterministic harness replay')
                self.pos += 1
                self.solver.add(e == v if take else e != v)
                if take:
                    return v
                continue
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise Unsupported('solver unknown while splitting')
            v = self._model().eval(e, model_completion=True)
            v = v.as_long()
            r2 = self._check(e != v)
            more = r2 != z3.unsat
            if more:
                self.stats.forks += 1
            self.trail.append(('s', (v, True), more))
            self.pos += 1
            self.solver.add(e == v)
            return v

    def text_of(self, num):
        key = num.num.key()
        if key in self.texts:
            return self.texts[key][0]
        e = num.z3()
        txt = None
        if self._check() == z3.sat:
            m = self._model()
            v = m.eval(e, model_completion=True)
            if self._check(e != v) == z3.unsat:
                txt = str(v.as_long())
            else:
                for t2, e2 in list(self.texts.values()):
                    if not t2.startswith('Sym'):
                        continue
                    if z3.is_true(z3.simplify(m.eval(e2, model_completion=True) == v)) and \
                            self._check(e != e2) == z3.unsat:
                        txt = t2
                        break
        if txt is None:
            txt = num._text()
        self.texts[key] = (txt, e)
        return txt

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort()
            return
        self.solver.add(boolexpr(c))
        if self._check() == z3.unsat:
            raise PathAbort()

    def valid(self, c):
        """c holds for every value on the current path (no counterexample is reported)"""
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        return self._check(z3.Not(boolexpr(c))) == z3.unsat

    def check(self, c, label):
        """assert c on the current path"""
        self.stats.checks += 1
        if isinstance(c, (bool, np.bool_)) and c:
            self.trivial += 1
            return
        if isinstance(c, (bool, np.bool_)):
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(boolexpr(c))
        r = self._check(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.incomplete.append('solver unknown on "%s"' % label)
            return
        models = [self._model()]
        self.on_cex(label, neg, models[0])

    # -- main loop
    def run(self, harness, on_cex):
        """on_cex(label, neg, model) may raise to stop"""
        global _CUR
        self.on_cex = on_cex
        stack_trail = []
        while True:
            if self.stats.paths >= self.max_paths:
                self.incomplete.append('path budget (%d) exhausted' % self.max_paths)
                break
            ATOMS.reset()
            self.solver = z3.Solver()
            self._nax = 0
            self.trail = list(stack_trail)
            self.pos = 0
            self.trivial = 0
            self.texts = {}
            prev = _CUR
            _CUR = self
            try:
                harness(self)
                self.stats.paths += 1
            except PathAbort:
                self.stats.aborted += 1
            except BudgetExceeded as exc:
                self.incomplete.append(str(exc))
                break
            finally:
                _CUR = prev
            # backtrack
            t = self.trail
            while t and not t[-1][2]:
                t.pop()
            if not t:
                break
            kind, val, _ = t.pop()
            if kind == 'b':
                t.append(('b', False, False))
            else:
                v, _take = val
                t.append(('s', (v, False), False))
            stack_trail = t
        return self.stats
