"""Symbolic scalars, forking on comparisons, and the per-path solver context."""
import math
import numbers
import time
from fractions import Fraction

import z3

from . import poly as P

PI = math.pi


class Unsupported(BaseException):
    """The executor met something it has no semantics for."""


class Infeasible(BaseException):
    """The path condition became unsatisfiable (an assumption failed)."""


class PathLimit(BaseException):
    pass


# ------------------------------------------------------------------ float literals
def simplest_between(lo, hi):
    """Simplest rational in [lo, hi] (Stern-Brocot), 0 < lo <= hi."""
    if lo == hi:
        return lo
    fl = lo.numerator // lo.denominator
    if fl == lo or Fraction(fl) == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_lift = {}


def lift_float(x):
    """The real number a float literal stands for: the simplest rational that rounds to it, or a simple multiple of
    pi. Returns (rational, power of pi)."""
    k = _lift.get(x)
    if k is not None:
        return k
    f = Fraction(x)
    if f.denominator == 1:
        r = (f.numerator, 0)
    else:
        a = abs(x)
        up = Fraction(math.nextafter(a, math.inf))
        dn = Fraction(math.nextafter(a, 0.0))
        fa = abs(f)
        s = simplest_between((fa + dn) / 2, (fa + up) / 2)
        sgn = -1 if x < 0 else 1
        r = (P.norm(sgn * s), 0)
        if s.denominator > 100000 and s.numerator > 1000:
            q = Fraction(a / PI)
            qs = simplest_between(q * (1 - Fraction(1, 2 ** 51)), q * (1 + Fraction(1, 2 ** 51)))
            if qs.denominator <= 2000 and qs.numerator <= 2000:
                r = (P.norm(sgn * qs), 1)
    _lift[x] = r
    return r


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or (isinstance(x, numbers.Number) and not isinstance(x, (Sym, complex)))


def to_rat(x):
    """Rat of a finite number or Sym; None when it is not one."""
    if isinstance(x, Sym):
        return x.r
    if isinstance(x, (bool, int)):
        return P.r_const(int(x))
    if isinstance(x, Fraction):
        return P.r_const(x)
    if hasattr(x, '_fp_isnan'):
        return None
    if isinstance(x, numbers.Real):
        if isinstance(x, numbers.Integral):
            return P.r_const(int(x))
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return None
        q, p = lift_float(x)
        if p:
            return P.Rat({((P.var('PI', True), 1),): q})
        return P.r_const(q)
    return None


def nonfinite(x):
    if hasattr(x, '_fp_isnan'):
        return False
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x)) or (
        isinstance(x, numbers.Real) and not isinstance(x, (int, Fraction, Sym)) and not math.isfinite(float(x)))


CTX = None            # current path context


def ctx():
    if CTX is None:
        raise Unsupported('no symbolic context')
    return CTX


# ------------------------------------------------------------------ z3 translation
_CONST = {}


class Z:
    """z3 terms for polynomials."""

    def __init__(self):
        self.vars = {}
        self.cache = {}
        self.facs = {}

    def v(self, i):
        x = self.vars.get(i)
        if x is None:
            x = self.vars[i] = z3.Real(P.NAMES[i])
        return x

    def const(self, c):
        c = Fraction(c)
        r = _CONST.get(c)
        if r is None:
            if len(_CONST) > 100000:
                _CONST.clear()
            r = _CONST[c] = z3.RealVal(str(c))
        return r

    def mono(self, m):
        t = self.cache.get(m)
        if t is None:
            fs = []
            for v, e in m:
                x = self.v(v)
                fs.extend([x] * e)
            t = fs[0] if len(fs) == 1 else z3.Product(*fs)
            self.cache[m] = t
        return t

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(self.const(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(self.const(c) * self.mono(m))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def factor(self, f):
        t = self.facs.get(f)
        if t is None:
            t = self.facs[f] = self.poly(P.FACTORS[f])
        return t


_zv = {}


def zvars(f):
    """Names of the uninterpreted constants of a formula."""
    k = f.get_id()
    r = _zv.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    out, seen, todo = set(), set(), [f]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        else:
            todo.extend(t.children())
    out = frozenset(out)
    _zv[k] = (f, out)
    return out


def nonlinear(f):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_mul(t) and sum(not z3.is_rational_value(x) for x in t.children()) > 1:
            return True
        todo.extend(t.children())
    return False


def slice_for(fs, base):
    want = set()
    for f in fs:
        want |= zvars(f)
    rest = [(b, zvars(b)) for b in base]
    out = []
    while True:
        hit = [x for x in rest if x[1] & want]
        if not hit:
            return out
        rest = [x for x in rest if not (x[1] & want)]
        for b, v in hit:
            out.append(b)
            want |= v


def clear_laurent(p, even=False):
    """Multiply by powers of variables so that exponents are >= 0. With even=True non-positive-known variables get
    even powers, so that the sign is kept."""
    mins = {}
    for m in p:
        for v, e in m:
            if e < 0 and e < mins.get(v, 0):
                mins[v] = e
    if not mins:
        return p, ()
    mult = []
    for v, e in sorted(mins.items()):
        k = -e
        if even and v not in P.POSITIVE and k % 2:
            k += 1
        mult.append((v, k))
    mult = tuple(mult)
    return {P.m_mul(m, mult): c for m, c in p.items()}, mult


class SymBool:
    """A comparison with zero of a quotient, or a Boolean combination; bool() forks."""
    __slots__ = ('op', 'r', 'args')

    def __init__(self, op, r=None, args=()):
        self.op = op
        self.r = r
        self.args = args

    def __bool__(self):
        return ctx().branch(self)

    def neg(self):
        o = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}.get(self.op)
        if o:
            return SymBool(o, self.r)
        if self.op == 'z3':
            e = self.args[1]
            if callable(e):
                return SymBool('z3', None, (z3.Not(self.args[0]), lambda vals: not e(vals)))
            return SymBool('not', None, (self,))
        if self.op == 'not':
            return self.args[0]
        return SymBool('not', None, (self,))

    def key(self):
        if self.r is not None:
            return (self.op, P.p_freeze(self.r.n), self.r.d)
        return (self.op,) + tuple(a.key() if isinstance(a, SymBool) else str(a) for a in self.args)

    def formula(self, z):
        if self.op == 'z3':
            return self.args[0]
        if self.op == 'and':
            return z3.And(*[fm(a, z) for a in self.args])
        if self.op == 'or':
            return z3.Or(*[fm(a, z) for a in self.args])
        if self.op == 'not':
            return z3.Not(fm(self.args[0], z))
        n = self.r.n
        if self.op in ('==', '!='):
            n, _ = clear_laurent(n)
            t = z.poly(n)
            return t == 0 if self.op == '==' else t != 0
        n, _ = clear_laurent(n, even=True)
        t = z.poly(n)
        for f, e in self.r.d:
            if e % 2:
                sg = fac_sign(f)
                t = t * z.factor(f) if sg is None else (t if sg > 0 else -t)
        return {'<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[self.op]

    def vars(self):
        if self.r is not None:
            s = P.p_vars(self.r.n)
            for f, _ in self.r.d:
                s |= P.p_vars(P.FACTORS[f])
            return s
        s = set()
        for a in self.args:
            if isinstance(a, SymBool):
                s |= a.vars()
        return s

    def evaluate(self, vals):
        """Truth at a numeric point (floats); used to look for candidate inputs."""
        if self.op == 'and':
            return all(ev(a, vals) for a in self.args)
        if self.op == 'or':
            return any(ev(a, vals) for a in self.args)
        if self.op == 'not':
            return not ev(self.args[0], vals)
        if self.op == 'z3':
            e = self.args[1]
            if isinstance(e, tuple) and e[0] == 'flag':
                return bool(vals[e])
            if callable(e):
                return e(vals)
            raise Unsupported('numeric evaluation')
        x = P.r_eval(self.r, vals)
        return {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0, '==': x == 0, '!=': x != 0}[self.op]

    def __and__(self, o):
        return and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)
    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return or_(and_(self, o), and_(not_(self), not_(o)))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool)):
            return not_(self == o)
        return NotImplemented

    def __hash__(self):
        return 11

    # arithmetic use of a truth value decides it
    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def _n(self):
        return int(bool(self))

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def logical_not(self):
        return not bool(self)

    def __repr__(self):
        if self.r is not None:
            return 'SymBool(%s %s 0)' % (P.p_str(self.r.n), self.op)
        return 'SymBool(%s, %r)' % (self.op, self.args)


def fm(a, z):
    if isinstance(a, SymBool):
        return a.formula(z)
    return z3.BoolVal(bool(a))


def ev(a, vals):
    return a.evaluate(vals) if isinstance(a, SymBool) else bool(a)


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', None, tuple(out))


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', None, tuple(out))


def not_(x):
    return x.neg() if isinstance(x, SymBool) else not x


def fac_sign(fid):
    """Sign of a denominator: from a precondition, or because all its terms have one sign."""
    if CTX is not None and fid in CTX.facsign:
        return CTX.facsign[fid]
    s = None
    for m, c in P.FACTORS[fid].items():
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        if s != t or any(v not in P.POSITIVE for v, _ in m):
            return None
    return s


def quick_sign(r):
    """+1, -1, 0 when obvious; '+0' / '-0' for >= 0 / <= 0; None otherwise."""
    n = r.n
    if not n:
        return 0
    fs = 1
    for f, e in r.d:
        if e % 2:
            g = fac_sign(f)
            if g is None:
                return None
            fs *= g
    lead = n[max(n, key=P.m_key)]
    fid = P.FINDEX.get(P.p_freeze(P.p_scale(n, Fraction(1) / lead))) if len(n) > 1 else None
    if fid is not None and fac_sign(fid) is not None:
        return fs * fac_sign(fid) * (1 if lead > 0 else -1)
    s = None
    strict = False
    for m, c in n.items():
        st = True
        for v, e in m:
            if v in P.POSITIVE:
                continue
            if e % 2 == 0:
                st = False
                continue
            return None
        cs = 1 if c > 0 else -1
        if s is None:
            s = cs
        elif s != cs:
            return None
        strict = strict or st
    s *= fs
    if strict:
        return s
    return '+0' if s > 0 else '-0'


def compare(op, r):
    s = quick_sign(r)
    if s is not None:
        if s == 0:
            return op in ('<=', '>=', '==')
        if s == 1:
            return op in ('>', '>=', '!=')
        if s == -1:
            return op in ('<', '<=', '!=')
        if s == '+0' and op == '>=':
            return True
        if s == '+0' and op == '<':
            return False
        if s == '-0' and op == '<=':
            return True
        if s == '-0' and op == '>':
            return False
    return SymBool(op, r)


class Sym:
    """A symbolic real number."""
    __slots__ = ('r',)
    __array_priority__ = 1000

    def __init__(self, r):
        self.r = r

    # -- arithmetic
    def __add__(self, o):
        b = to_rat(o)
        if b is None:
            return o if nonfinite(o) else NotImplemented
        return Sym(P.r_add(self.r, b))
    __radd__ = __add__

    def __neg__(self):
        return Sym(P.r_neg(self.r))

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = to_rat(o)
        if b is None:
            return -o if nonfinite(o) else NotImplemented
        return Sym(P.r_add(self.r, P.r_neg(b)))

    def __rsub__(self, o):
        b = to_rat(o)
        if b is None:
            return o if nonfinite(o) else NotImplemented
        return Sym(P.r_add(b, P.r_neg(self.r)))

    def __mul__(self, o):
        b = to_rat(o)
        if b is None:
            if nonfinite(o):
                o = float(o)
                return math.nan if math.isnan(o) or self == 0 else (o if self > 0 else -o)
            return NotImplemented
        return Sym(P.r_mul(self.r, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = to_rat(o)
        if b is None:
            if nonfinite(o):
                return math.nan if math.isnan(float(o)) else Sym(P.Rat({}))
            return NotImplemented
        return divide(self.r, b)

    def __rtruediv__(self, o):
        a = to_rat(o)
        if a is None:
            if nonfinite(o):
                return o * (1 if self > 0 else -1)
            return NotImplemented
        return divide(a, self.r)

    def __pow__(self, k, mod=None):
        k = k.constval() if isinstance(k, Sym) and k.isconst() else k
        if isinstance(k, Sym):
            raise_unsupported('symbolic exponent')
        kk = to_rat(k)
        if kk is None:
            return NotImplemented
        q = Fraction(P.p_constval(kk.n))
        if q.denominator == 1:
            q = int(q)
            if q < 0:
                if ctx().is_zero(self.r):
                    raise ZeroDivisionError('0.0 cannot be raised to a negative power')
            return Sym(P.r_pow(self.r, q))
        if q.denominator == 2:
            return self.sqrt() ** q.numerator
        raise_unsupported('exponent %s' % q)

    def __rpow__(self, o):
        if self.isconst() and Fraction(self.constval()).denominator == 1:
            return o ** int(self.constval())
        raise_unsupported('symbolic exponent')

    def __abs__(self):
        s = quick_sign(self.r)
        if s in (1, '+0', 0):
            return self
        if s in (-1, '-0'):
            return -self
        return self if self >= 0 else -self
    fabs = absolute = __abs__

    def __divmod__(self, o):
        return self // o, self % o

    def __floordiv__(self, o):
        return ctx().floor(self / o)

    def __rfloordiv__(self, o):
        return ctx().floor(o / self)

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def floor(self):
        return ctx().floor(self)
    __floor__ = floor

    def ceil(self):
        return -ctx().floor(-self)
    __ceil__ = ceil

    def __trunc__(self):
        return self.floor() if self >= 0 else self.ceil()

    def __round__(self, nd=None):
        if self.isconst():
            v = round(Fraction(self.constval()), nd) if nd else round(Fraction(self.constval()))
            return mk(v)
        k = 10 ** (nd or 0)
        return ctx().floor(self * k + Fraction(1, 2)) / k

    def rint(self):
        return round(self)

    def is_integer(self):
        if self.isconst():
            return Fraction(self.constval()).denominator == 1
        return self == self.floor()

    # -- comparisons
    def _cmp(self, op, o):
        b = to_rat(o)
        if b is None:
            if nonfinite(o):
                o = float(o)
                if math.isnan(o):
                    return op == '!='
                return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
            return NotImplemented
        return compare(op, P.r_add(self.r, P.r_neg(b)))

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def __eq__(self, o):
        return self._cmp('==', o)

    def __ne__(self, o):
        return self._cmp('!=', o)

    def __hash__(self):
        if self.isconst():
            return hash(self.constval())
        if CTX is not None and CTX.is_int(self):
            return hash(CTX.enumerate_int(self))
        return 7

    def __bool__(self):
        return bool(self != 0)

    # -- constants
    def isconst(self):
        return self.r.isconst()

    def constval(self):
        return P.p_constval(self.r.n)

    def __float__(self):
        if self.isconst():
            return float(self.constval())
        vs = P.p_vars(self.r.n)
        if not self.r.d and vs == {P.INDEX.get('PI')}:
            return float(P.p_eval(self.r.n, {P.INDEX['PI']: PI}))
        raise_unsupported('a symbolic value is needed as a machine float')

    def __int__(self):
        if self.isconst():
            return int(self.constval())
        return ctx().enumerate_int(self.__trunc__())

    def __index__(self):
        if self.isconst():
            f = Fraction(self.constval())
            if f.denominator == 1:
                return int(f)
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not ctx().is_int(self):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().enumerate_int(self)

    # -- functions that numpy calls by name on object arrays
    def sqrt(self):
        return ctx().sqrt(self)

    def cos(self):
        return cos_sin(self)[0]

    def sin(self):
        return cos_sin(self)[1]

    def tan(self):
        c, s = cos_sin(self)
        return s / c

    def radians(self):
        return self * mk_pi() / 180
    deg2rad = radians

    def degrees(self):
        return self * 180 / mk_pi()
    rad2deg = degrees

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def sign(self):
        return 1 if self > 0 else (-1 if self < 0 else 0)

    def conjugate(self):
        return self
    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, *a, **k):
        return self

    def round(self, nd=None):
        return self.__round__(nd)

    def exp(self):
        return ctx().opaque('exp', self)

    def log(self):
        return ctx().opaque('log', self)

    def arccos(self):
        return ctx().opaque('arccos', self)

    def arcsin(self):
        return ctx().opaque('arcsin', self)

    def arctan(self):
        return ctx().opaque('arctan', self)

    def cosh(self):
        return ctx().opaque('cosh', self)

    def sinh(self):
        return ctx().opaque('sinh', self)

    def cbrt(self):
        return ctx().opaque('cbrt', self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def as_integer_ratio(self):
        if self.isconst():
            return Fraction(self.constval()).as_integer_ratio()
        raise_unsupported('as_integer_ratio')

    # -- text
    def __format__(self, spec):
        return ctx().token(self, spec)

    def __str__(self):
        return CTX.token(self, '') if CTX is not None else repr(self)

    def __repr__(self):
        return 'Sym(%s%s)' % (P.p_str(self.r.n), '' if not self.r.d else ' / ...')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class NSym(Sym):
    """A symbolic number that came out of an array: like numpy's float64, it gives inf or nan when divided by zero."""
    __slots__ = ()

    def __neg__(self):
        return NSym(P.r_neg(self.r))

    def __abs__(self):
        return as_scalar(Sym.__abs__(self))

    def __pow__(self, k, mod=None):
        if is_num(k) and k < 0:
            return 1 / NSym.__pow__(self, -k)
        return as_scalar(Sym.__pow__(self, k))

    def sqrt(self):
        return as_scalar(Sym.sqrt(self))

    def square(self):
        return as_scalar(Sym.__mul__(self, self))

    def item(self):
        return Sym(self.r)
    tolist = item


def as_scalar(x):
    """The element of an array as numpy hands it out."""
    return NSym(x.r) if type(x) is Sym else x


numbers.Real.register(Sym)


def raise_unsupported(msg):
    if CTX is not None:
        CTX.unsupported = CTX.unsupported or msg
    raise Unsupported(msg)


def mk(x):
    r = to_rat(x)
    if r is None:
        raise TypeError('not a finite number: %r' % (x,))
    return Sym(r)


def mk_pi():
    return Sym(P.Rat(P.p_var(P.var('PI', True))))


def divide(a, b):
    if P.p_isconst(b.n) and not b.d:
        k = P.p_constval(b.n)
        if k == 0:
            return by_zero(Sym(a))
        return Sym(P.Rat(P.p_scale(a.n, Fraction(1) / k), a.d))
    if ctx().is_zero(b):
        return by_zero(Sym(a))
    return Sym(P.r_mul(a, P.r_inv(b)))


def by_zero(a):
    if ctx().zero_div == 'raise':
        raise ZeroDivisionError('float division by zero')
    if a == 0:
        return math.nan
    return math.inf if a > 0 else -math.inf


# ------------------------------------------------------------------ trigonometry
ROOTS = {}


def root_const(k):
    """Positive square root of the integer k (2 or 3) as an algebraic constant."""
    v = P.var('sqrt%d' % k, True)
    P.SQUARE[v] = P.p_const(k)
    return Sym(P.Rat(P.p_var(v)))


def exact_cosd(q):
    """Exact cosine of q degrees for multiples of 15, else None."""
    q = q % 360
    if q > 180:
        q = 360 - q
    h = Fraction(1, 2)
    tab = {0: 1, 60: h, 90: 0, 120: -h, 180: -1}
    if q in tab:
        return mk(tab[q])
    if q in (45, 135):
        return root_const(2) * (h if q == 45 else -h)
    if q in (30, 150):
        return root_const(3) * (h if q == 30 else -h)
    if q in (15, 165, 75, 105):
        r = root_const(2) * (root_const(3) + (1 if q in (15, 165) else -1)) / 4
        return r if q < 90 else -r
    return None


def pair(key, label):
    c = ctx()
    pr = c.trig.get(key)
    if pr is None:
        ci = P.var('cos[%s]' % label)
        si = P.var('sin[%s]' % label)
        P.SQUARE[si] = {P.ONE: 1, ((ci, 2),): -1}
        pr = c.trig[key] = (ci, si)
        zc, zs = c.z.v(ci), c.z.v(si)
        c.axiom(zc * zc + zs * zs == 1)
        c.axiom(z3.And(zc <= 1, zc >= -1, zs <= 1, zs >= -1))
    return Sym(P.Rat(P.p_var(pr[0]))), Sym(P.Rat(P.p_var(pr[1])))


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def cpow(a, n):
    r = (mk(1), mk(0))
    for _ in range(n):
        r = cmul(r, a)
    return r


def cos_sin(x):
    """(cos x, sin x), x in radians."""
    c = ctx()
    if isinstance(x, (int, float)) and x == 0:
        return mk(1), mk(0)
    x = x if isinstance(x, Sym) else mk(x)
    r = x.r
    pi = P.var('PI', True)
    ok = not r.d
    lin = {}
    q0 = Fraction(0)
    if ok:
        for m, k in r.n.items():
            d = dict(m)
            if d.pop(pi, 0) != 1:
                ok = False
                break
            if not d:
                q0 += Fraction(k) * 180
            elif len(d) == 1 and list(d.values()) == [1]:
                lin[next(iter(d))] = Fraction(k) * 180
            else:
                ok = False
                break
    if not ok:
        # not a multiple of pi: an angle the executor has no structure for (only c^2 + s^2 = 1)
        n = r.n
        if not n:
            return mk(1), mk(0)
        if not r.d and len(n) == 1:
            (m, k), = n.items()
            k = Fraction(k)
            base = {m: 1}
            u = Fraction(1, k.denominator)
            a = pair(('rad', P.p_freeze(base), k.denominator), 'rad:%s/%d' % (P.p_str(base), k.denominator))
            c.radian_args[('rad', P.p_freeze(base), k.denominator)] = P.Rat({m: u})
            t = cpow(a, abs(k.numerator))
            return t if k > 0 else (t[0], -t[1])
        sg = 1
        lead = n[max(n, key=P.m_key)]
        if lead < 0:
            sg = -1
            n = P.p_neg(n)
        key = ('gen', P.p_freeze(n), r.d)
        a = pair(key, 'gen%d' % len(c.trig))
        c.radian_args[key] = P.Rat(n, r.d)
        return (a[0], a[1] if sg > 0 else -a[1])
    out = None
    q0 = q0 % 360
    e = exact_cosd(q0)
    if e is not None:
        out = (e, exact_cosd((q0 - 90) % 360))
    else:
        key = ('const', q0)
        a = pair(key, '%s deg' % q0)
        if key not in c.constpairs:
            c.constpairs.add(key)
            for t, v in ((a[0], math.cos(math.radians(q0))), (a[1], math.sin(math.radians(q0)))):
                f = Fraction(v)
                zt = c.z.poly(t.r.n)
                c.axiom(z3.And(zt > c.z.const(f - Fraction(1, 10 ** 12)), zt < c.z.const(f + Fraction(1, 10 ** 12))))
        out = a
    for v, q in sorted(lin.items()):
        if q == 0:
            continue
        if v in c.intvars and q % 180 == 0:
            if q % 360 == 0:
                continue
            sv = P.var('parity[%s]' % P.NAMES[v])
            P.SQUARE[sv] = P.p_const(1)
            zz = c.z.v(sv)
            c.axiom(z3.Or(zz == 1, zz == -1))
            c.parity[sv] = v
            sgn = Sym(P.Rat(P.p_var(sv)))
            out = (out[0] * sgn, out[1] * sgn)
            continue
        den = q.denominator
        a = pair(('deg', v, den), P.NAMES[v] + ('' if den == 1 else '/%d' % den))
        c.angles.setdefault(v, set()).add(den)
        if den != 1:
            b = pair(('deg', v, 1), P.NAMES[v])
            full = cpow(a, den)
            c.angles[v].add(1)
            c.axiom(z3.And(c.z.poly(full[0].r.n) == c.z.poly(b[0].r.n), c.z.poly(full[1].r.n) == c.z.poly(b[1].r.n)))
        t = cpow(a, abs(q.numerator))
        if q < 0:
            t = (t[0], -t[1])
        out = cmul(out, t)
    return out


class SymC:
    """A complex number whose parts may be symbolic."""
    __slots__ = ('real', 'imag')
    __array_priority__ = 1001

    def __init__(self, re, im=0):
        self.real, self.imag = re, im

    @staticmethod
    def of(o):
        if isinstance(o, SymC):
            return o
        if isinstance(o, complex):
            return SymC(o.real, o.imag)
        if isinstance(o, Sym) or isinstance(o, numbers.Real):
            return SymC(o, 0)
        return None

    def _op(f):
        def op(self, o):
            if hasattr(o, 'ndim') and o.ndim and not isinstance(o, Sym):
                return NotImplemented
            b = SymC.of(o)
            return NotImplemented if b is None else f(self, b)
        return op

    __add__ = __radd__ = _op(lambda a, b: SymC(a.real + b.real, a.imag + b.imag))
    __sub__ = _op(lambda a, b: SymC(a.real - b.real, a.imag - b.imag))
    __rsub__ = _op(lambda a, b: SymC(b.real - a.real, b.imag - a.imag))
    __mul__ = __rmul__ = _op(lambda a, b: SymC(a.real * b.real - a.imag * b.imag, a.real * b.imag + a.imag * b.real))
    __truediv__ = _op(lambda a, b: a._div(b))
    __rtruediv__ = _op(lambda a, b: b._div(a))
    __eq__ = _op(lambda a, b: and_(a.real == b.real, a.imag == b.imag))
    __ne__ = _op(lambda a, b: or_(a.real != b.real, a.imag != b.imag))
    __hash__ = None

    def _div(a, b):
        d = b.real * b.real + b.imag * b.imag
        return SymC((a.real * b.real + a.imag * b.imag) / d, (a.imag * b.real - a.real * b.imag) / d)

    def __neg__(self):
        return SymC(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __pow__(self, k):
        if not isinstance(k, numbers.Real) or isinstance(k, Sym) or k != int(k):
            raise_unsupported('power of a complex number')
        r, k = SymC(1, 0), int(k)
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else 1 / r

    def __abs__(self):
        return mk(self.real * self.real + self.imag * self.imag).sqrt()

    def conjugate(self):
        return SymC(self.real, -self.imag)
    conj = conjugate

    def exp(self):
        c, s = cos_sin(mk(self.imag))
        if not (is_num(self.real) and self.real == 0 or isinstance(self.real, Sym) and self.real.isconst()
                and self.real.constval() == 0):
            e = ctx().opaque('exp', mk(self.real))
            return SymC(e * c, e * s)
        return SymC(c, s)

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __float__(self):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")

    def __bool__(self):
        return bool(or_(mk(self.real) != 0, mk(self.imag) != 0))


# ------------------------------------------------------------------ path context
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.paths = 0
        self.branches = 0
        self.unknown = 0


def _arrays(name, ufunc, reflected):
    """Elementwise when the other operand is an array (numpy defers to scalars of higher priority)."""
    import numpy
    scalar = getattr(Sym, name)
    divides = 'truediv' in name

    def op(self, o):
        if isinstance(o, complex):
            return getattr(SymC(self, 0), name)(o)
        if isinstance(o, numpy.ndarray) and o.ndim:
            from . import shims
            me = numpy.empty((), dtype=object)
            me[()] = self
            x = shims.plain(o)
            if ufunc is numpy.true_divide:
                return shims.np_div(o, me) if reflected else shims.np_div(me, o)
            if ufunc in COMPARISONS:
                return shims.wrap(ufunc(me, x, dtype=object))
            return shims.wrap(ufunc(x, me) if reflected else ufunc(me, x))
        if type(self) is NSym or type(o) is NSym:
            if divides:
                c = ctx()
                old, c.zero_div = c.zero_div, 'inf'
                try:
                    return as_scalar(scalar(self, o))
                finally:
                    c.zero_div = old
            return as_scalar(scalar(self, o))
        return scalar(self, o)
    op.__name__ = name
    setattr(Sym, name, op)


import numpy as _rnp
COMPARISONS = (_rnp.less, _rnp.less_equal, _rnp.greater, _rnp.greater_equal, _rnp.equal, _rnp.not_equal)
for _n, _u in (('add', _rnp.add), ('sub', _rnp.subtract), ('mul', _rnp.multiply), ('truediv', _rnp.true_divide)):
    _arrays('__%s__' % _n, _u, False)
    _arrays('__r%s__' % _n, _u, True)
for _n, _u in zip(('lt', 'le', 'gt', 'ge', 'eq', 'ne'), COMPARISONS):
    _arrays('__%s__' % _n, _u, False)


class Ctx:
    def __init__(self, prefix, stats, timeout_ms=10000):
        self.prefix = prefix
        self.trail = []
        self.pending = []
        self.stats = stats
        self.z = Z()
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.base = []            # everything asserted so far
        self.timeout_ms = timeout_ms
        self.pc = []              # SymBool / contract facts, for numeric candidate search
        self.known = {}           # decided atoms
        self.trig = {}
        self.constpairs = set()
        self.radian_args = {}
        self.angles = {}          # variable id (degrees) -> denominators in use
        self.special = set()
        self.intvars = set()
        self.parity = {}
        self.facsign = {}         # factor id -> sign, from the preconditions
        self.nonzero = set()
        self._nzf = set()
        self.zero_div = 'raise'
        self.unsupported = None
        self.tokens = []
        self.fresh = 0
        self.axioms = []
        self.defs = []            # (var id, python function of numeric valuation) for fresh variables
        self.sqrts = {}
        self.opaques = {}
        self.max_branch = 4000
        self.oneway = False
        self.fpmode = False       # doubles are bit-blasted
        self.literals = {}        # numeral in a string -> symbolic value it stands for
        self.tablecache = {}
        self.eigcalls = []
        self.facts_lin = []       # polynomials known to be zero (contract facts)

    # -- facts
    def axiom(self, f):
        self.axioms.append(f)
        self.add(f)

    def add(self, f):
        self.base.append(f)
        self.solver.add(f)

    def assume(self, b):
        """Precondition (documented domain)."""
        if isinstance(b, SymBool):
            self.note(b)
            self.known[b.key()] = True
            self.known[b.neg().key()] = False
            self.angle_axioms(b)
            self.pc.append(b)
            self.add(b.formula(self.z))
            # positivity of denominators
            if b.op in ('>', '<') and b.r is not None:
                n, c = b.r.n, P.p_content(b.r.n)
                sg = 1 if b.op == '>' else -1
                for f, e in b.r.d:
                    sg = sg * (fac_sign(f) or 0) if e % 2 else sg
                if all(v in P.POSITIVE for v, _ in c) and sg:
                    n = P.p_mulm(n, P.m_inv(c)) if c else n
                    lead = n[max(n, key=P.m_key)]
                    if not P.p_isconst(n):
                        self.facsign[P.factor_id(P.p_scale(n, Fraction(1) / lead))] = sg * (1 if lead > 0 else -1)
        elif not b:
            raise Infeasible()

    def note(self, b):
        pass

    def angle_axioms(self, b):
        """Relate an angle compared directly with numbers to its cosine and sine."""
        for v in b.vars():
            if v in self.angles and v not in self.special:
                self.special.add(v)
                self._special(v)

    def _special(self, v):
        pr = self.trig.get(('deg', v, 1))
        if pr is None:
            return
        t, c, s = self.z.v(v), self.z.v(pr[0]), self.z.v(pr[1])
        ax = []
        for q in range(-360, 361, 15):
            e = exact_cosd(Fraction(q))
            if e is None:
                continue
            e2 = exact_cosd(Fraction(q - 90))
            ax.append(z3.Implies(t == q, z3.And(c == self.z.poly(e.r.n), s == self.z.poly(e2.r.n))))
        for q in range(-360, 360, 90):
            k = (q // 90) % 4
            cs = [c > 0, c < 0, c < 0, c > 0][k]
            ss = [s > 0, s > 0, s < 0, s < 0][k]
            ax.append(z3.Implies(z3.And(t > q, t < q + 90), z3.And(cs, ss)))
        for k in (2, 3):
            vi = P.INDEX.get('sqrt%d' % k)
            if vi is not None:
                zz = self.z.v(vi)
                ax.append(z3.And(zz > 0, zz * zz == k))
        self.axiom(z3.And(*ax))

    def new_angle(self, v):
        """Declare a variable as an angle in degrees (its pair exists from the start)."""
        pair(('deg', v, 1), P.NAMES[v])
        self.angles.setdefault(v, set()).add(1)

    # -- solver
    def check(self, *fs, timeout=None, model=False):
        """Satisfiability of the path condition with fs: the incremental solver first, then a fresh nonlinear solver on
        the constraints that share variables with fs (the rest is satisfiable on its own)."""
        t0 = time.time()
        s = self.solver
        s.push()
        try:
            for f in fs:
                s.add(f)
            s.set('timeout', 20000 if self.fpmode else 100)
            r = s.check()
            m = s.model() if r == z3.sat else None
        finally:
            s.pop()
        if r == z3.unknown:
            todo = list(self.base)
            if fs and not model:
                todo = slice_for(fs, todo)
            fresh = z3.Solver() if self.fpmode else z3.SolverFor('QF_NRA') if not self.intvars else z3.SolverFor('QF_LIRA') if not any(nonlinear(f) for f in todo + list(fs)) else z3.Solver()
            fresh.set('timeout', int(timeout or self.timeout_ms))
            fresh.add(*todo, *fs)
            r = fresh.check()
            m = fresh.model() if r == z3.sat else None
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def is_zero(self, r):
        """Decide r == 0 for a denominator, forking when both are possible."""
        s = quick_sign(r)
        if s in (1, -1):
            return False
        if s == 0:
            return True
        c = P.p_content(r.n)
        rest = P.p_mulm(r.n, P.m_inv(c)) if c else r.n
        lead = rest[max(rest, key=P.m_key)]
        rest = P.p_scale(rest, Fraction(1) / lead)
        k = P.p_freeze(rest)
        f = P.FINDEX.get(k)
        need = [v for v, e in c if v not in P.POSITIVE and v not in self.nonzero]
        if not need and (P.p_isconst(rest) or (f is not None and (f in self.nonzero_facs()))):
            return False
        b = SymBool('==', r)
        if self.branch(b):
            return True
        for v in need:
            self.nonzero.add(v)
        if not P.p_isconst(rest):
            self.nonzero_facs().add(P.factor_id(rest))
        return False

    def nonzero_facs(self):
        self._nzf |= self.facsign.keys()
        return self._nzf

    def branch(self, b):
        if self.unsupported:
            raise Unsupported(self.unsupported)
        k = b.key()
        if k in self.known:
            return self.known[k]
        self.angle_axioms(b)
        i = len(self.trail)
        if i > self.max_branch:
            raise PathLimit('branches on one path')
        f = b.formula(self.z)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.stats.branches += 1
            rt, _ = self.check(f)
            if rt == z3.unsat:
                d = False
            else:
                rf, _ = self.check(z3.Not(f))
                if rf == z3.unsat:
                    d = True
                else:
                    d = True
                    if not self.oneway:
                        self.pending.append(self.trail + [False])
        self.trail.append(d)
        t = b if d else b.neg()
        self.pc.append(t)
        self.known[k] = d
        self.known[b.neg().key()] = not d
        self.add(f if d else z3.Not(f))
        return d

    def choose(self, n):
        """A solver-free finite choice 0..n-1 (configuration), forked."""
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.pending.append(self.trail + [j])
        self.trail.append(d)
        return d

    # -- derived values
    def newvar(self, name, positive=False):
        v = P.var(name, positive)
        return v

    def fresh_sym(self, label, fn=None, positive=False):
        self.fresh += 1
        v = P.var('%s#%d' % (label, self.fresh), positive)
        if fn is not None:
            self.defs.append((v, fn))
        return Sym(P.Rat(P.p_var(v)))

    def is_int(self, s):
        if s.r.d:
            return False
        for m, c in s.r.n.items():
            if Fraction(c).denominator != 1:
                return False
            if any(v not in self.intvars for v, _ in m):
                return False
        return True

    def floor(self, x):
        if not isinstance(x, Sym):
            return math.floor(x)
        if x.isconst():
            return mk(math.floor(Fraction(x.constval())))
        if self.is_int(x):
            return x
        key = ('floor', P.p_freeze(x.r.n), x.r.d)
        k = self.opaques.get(key)
        if k is None:
            k = self.fresh_sym('floor', lambda vals, x=x: math.floor(P.r_eval(x.r, vals)))
            v = next(iter(P.p_vars(k.r.n)))
            self.intvars.add(v)
            self.axiom(z3.IsInt(self.z.v(v)))
            self.fact(k <= x)
            self.fact(x < k + 1)
            self.opaques[key] = k
        return k

    def fact(self, b):
        """Contract fact about a fresh variable."""
        if isinstance(b, SymBool):
            self.axioms.append(b.formula(self.z))
            self.add(b.formula(self.z))
            self.known[b.key()] = True
            self.known[b.neg().key()] = False

    def lin_fact(self, e):
        """e == 0, a contract equation (kept as a polynomial for the linear-abstraction queries)."""
        if isinstance(e, Sym) and e.r.n:
            self.facts_lin.append(e.r)

    def sqrt(self, x):
        if x.isconst():
            f = Fraction(x.constval())
            if f < 0:
                return math.nan
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return mk(Fraction(n, d))
        key = (P.p_freeze(x.r.n), x.r.d)
        s = self.sqrts.get(key)
        if s is None:
            if x < 0:
                raise ValueError('math domain error')
            s = self.fresh_sym('sqrt', lambda vals, x=x: math.sqrt(P.r_eval(x.r, vals)))
            v = next(iter(P.p_vars(s.r.n)))
            if not x.r.d:
                P.SQUARE[v] = x.r.n
            self.fact(s >= 0)
            self.fact(s * s == x) if x.r.d else self.axiom(self.z.v(v) * self.z.v(v) == self.z.poly(clear_laurent(x.r.n)[0]) if not clear_laurent(x.r.n)[1] else z3.BoolVal(True))
            self.sqrts[key] = s
        return s

    def opaque(self, fn, x):
        if x.isconst() and x.constval() == 0 and fn in ('exp', 'cosh'):
            return mk(1)
        key = (fn, P.p_freeze(x.r.n), x.r.d)
        s = self.opaques.get(key)
        if s is None:
            py = {'exp': math.exp, 'log': math.log, 'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan,
                  'cosh': math.cosh, 'sinh': math.sinh, 'cbrt': lambda t: math.copysign(abs(t) ** (1 / 3), t)}[fn]
            s = self.fresh_sym(fn, lambda vals, x=x, py=py: py(P.r_eval(x.r, vals)), positive=fn in ('exp', 'cosh'))
            self.opaques[key] = s
        return s

    def enumerate_int(self, s):
        """Concrete value of an integer-valued symbol: fork over the values the solver finds."""
        for _ in range(200):
            if s.isconst():
                return int(s.constval())
            i = len(self.trail)
            if i < len(self.prefix):
                # the value tried is recorded in the prefix
                val = self.prefix[i]
                self.trail.append(val)
            else:
                q, m = self.check()
                if q == z3.unsat:
                    raise Infeasible()
                if m is None:
                    raise_unsupported('cannot enumerate an integer')
                x = m.eval(self.z.poly(clear_laurent(s.r.n)[0]), model_completion=True)
                val = int(str(x)) if z3.is_int_value(x) else x.numerator_as_long() // x.denominator_as_long()
                self.trail.append(val)
            if self.branch_eq_int(s, val):
                return val
        raise_unsupported('too many integer values')

    def branch_eq_int(self, s, val):
        b = s == val
        return bool(b)

    def token(self, s, spec):
        if s.isconst():
            f = Fraction(s.constval())
            x = f.numerator if f.denominator == 1 and self.is_int(s) and not spec else float(f)
            return format(x, spec)
        self.tokens.append((s, spec))
        return '\u27e6%d\u27e7' % (len(self.tokens) - 1)


def sym_var(name, positive=False):
    return Sym(P.Rat(P.p_var(P.var(name, positive))))
