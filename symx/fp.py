"""Symbolic IEEE-754 doubles: one z3 Float64 term per value, with a Python function for numeric evaluation."""
import builtins as _b
import math
import numbers
import operator

import z3

from . import sym as S
from .sym import SymBool, raise_unsupported

F64 = z3.Float64()
RNE, RTZ = z3.RNE(), z3.RTZ()


def const(x):
    x = _b.float(x)
    if x != x:
        return z3.fpNaN(F64)
    if math.isinf(x):
        return z3.fpInfinity(F64, x < 0)
    return z3.fpToFP(z3.BitVecVal(int.from_bytes(__import__('struct').pack('>d', x), 'big'), 64), F64)


def var(name):
    return SymFP(z3.FP(name, F64), lambda vals: vals[('fp', name)])


def model_value(m, name):
    t = m.eval(z3.FP(name, F64), model_completion=True)
    b = z3.simplify(z3.fpToIEEEBV(t))
    if z3.is_true(z3.simplify(z3.fpIsNaN(t))) or not z3.is_bv_value(b):
        return 'nan'
    x = __import__('struct').unpack('>d', b.as_long().to_bytes(8, 'big'))[0]
    if x != x:
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return x.hex()


def tobool(f, e):
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SymBool('z3', None, (f, e))


def lift(o):
    if isinstance(o, SymFP):
        return o
    if isinstance(o, bool) or isinstance(o, numbers.Integral):
        x = _b.float(o)
        if int(x) != int(o):
            return None
        return SymFP(const(x), lambda v: x)
    if isinstance(o, numbers.Real) and not isinstance(o, S.Sym):
        x = _b.float(o)
        return SymFP(const(x), lambda v: x)
    return None


def safe(op, *fs):
    def e(vals):
        return op(*[f(vals) for f in fs])
    return e


def fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)


class SymFP:
    """isint: the value stands for a Python int obtained from the double (exact; only comparisons are offered)."""
    _is_symfloat = True

    def __init__(self, t, e, isint=False):
        self.t = t
        self.e = e
        self.isint = isint
        if isint:
            self._is_symfloat = False
            self._is_symint = True

    def _symfloat(self):
        return SymFP(self.t, self.e)

    def _fp_isnan(self):
        return tobool(z3.fpIsNaN(self.t), safe(lambda x: x != x, self.e))

    def _fp_isinf(self):
        return tobool(z3.fpIsInf(self.t), safe(math.isinf, self.e))

    def _fp_isfinite(self):
        return tobool(z3.Not(z3.Or(z3.fpIsNaN(self.t), z3.fpIsInf(self.t))), safe(math.isfinite, self.e))

    def _symint(self):
        if self.isint:
            return self
        if self._fp_isnan():
            raise ValueError('cannot convert float NaN to integer')
        if self._fp_isinf():
            raise OverflowError('cannot convert float infinity to integer')
        return SymFP(z3.fpRoundToIntegral(RTZ, self.t), safe(math.trunc, self.e), True)
    __trunc__ = _symint

    def _round(self, mode, py):
        if self._fp_isnan():
            raise ValueError('cannot convert float NaN to integer')
        if self._fp_isinf():
            raise OverflowError('cannot convert float infinity to integer')
        return SymFP(z3.fpRoundToIntegral(mode, self.t), safe(py, self.e), True)

    def __floor__(self):
        return self._round(z3.RTN(), math.floor)

    def __ceil__(self):
        return self._round(z3.RTP(), math.ceil)
    floor, ceil = __floor__, __ceil__

    def __round__(self, nd=None):
        if nd is not None:
            raise_unsupported('round of a symbolic double to decimals')
        return self._round(RNE, round)

    def is_integer(self):
        f = z3.And(z3.Not(z3.Or(z3.fpIsNaN(self.t), z3.fpIsInf(self.t))),
                   z3.fpEQ(z3.fpRoundToIntegral(RTZ, self.t), self.t))
        return tobool(f, safe(lambda x: _b.float(x).is_integer(), self.e))

    def _cmp(self, o, zop, pop):
        o = lift(o)
        if o is None:
            return NotImplemented
        return tobool(zop(self.t, o.t), safe(pop, self.e, o.e))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT, operator.lt)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ, operator.le)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ, operator.ge)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ, operator.eq)

    def __ne__(self, o):
        r = self == o
        return r if r is NotImplemented else S.not_(r)

    def __hash__(self):
        return 13

    def __bool__(self):
        r = S.not_(self._cmp(0.0, z3.fpEQ, operator.eq))
        return bool(r)

    def _arith(self, o, zop, pop, swap=False):
        whole = isinstance(o, numbers.Integral)  # int with int would be exact in Python; int with float is float arithmetic
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.isint and (o.isint or whole) or o.isint and whole:
            raise_unsupported('integer arithmetic on an integer made from a symbolic double')
        a, b = (o, self) if swap else (self, o)
        return SymFP(zop(RNE, a.t, b.t), safe(pop, a.e, b.e))

    def __add__(self, o):
        return self._arith(o, z3.fpAdd, operator.add)

    def __radd__(self, o):
        return self._arith(o, z3.fpAdd, operator.add, True)

    def __sub__(self, o):
        return self._arith(o, z3.fpSub, operator.sub)

    def __rsub__(self, o):
        return self._arith(o, z3.fpSub, operator.sub, True)

    def __mul__(self, o):
        return self._arith(o, z3.fpMul, operator.mul)

    def __rmul__(self, o):
        return self._arith(o, z3.fpMul, operator.mul, True)

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if tobool(z3.fpIsZero(o.t), safe(lambda x: x == 0, o.e)):
            raise ZeroDivisionError('float division by zero')
        return self._arith(o, z3.fpDiv, fdiv)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o.__truediv__(self)

    def __mod__(self, o):
        if o == 1 and not isinstance(o, SymFP):
            # only ever compared with zero: x % 1 == 0 exactly when x is a whole number, NaN for an infinity
            if self._fp_isnan() or self._fp_isinf():
                return math.nan
            f = z3.fpSub(RNE, self.t, z3.fpRoundToIntegral(z3.RTN(), self.t))
            return SymFP(f, safe(lambda x: x % 1, self.e))
        raise_unsupported('remainder of a symbolic double')

    def __neg__(self):
        return SymFP(z3.fpNeg(self.t), safe(operator.neg, self.e), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFP(z3.fpAbs(self.t), safe(abs, self.e), self.isint)

    def __pow__(self, o):
        if o == 2:
            return self * self
        raise_unsupported('power of a symbolic double')

    def sqrt(self):
        return SymFP(z3.fpSqrt(RNE, self.t), safe(lambda x: math.sqrt(x) if x >= 0 else math.nan, self.e))

    def __format__(self, spec):
        return '<double>'

    def __repr__(self):
        return '<double>'
    __str__ = __repr__


numbers.Real.register(SymFP)
