"""Replacements for the libraries composipy imports: numpy over object arrays of symbolic reals, math, and contract
stubs for scipy's eigen-solvers, scipy.optimize.minimize and matplotlib."""
import builtins as _b
import cmath
import fractions
import functools
import math as _math
import sys
import types
import warnings

import numpy as rnp
import z3

from . import poly as P
from . import sym as S
from .engine import OptResult
from .sym import Sym, SymBool, SymC, NSym, as_scalar, mk, raise_unsupported

Fraction = fractions.Fraction


# ------------------------------------------------------------------ arrays
def _vec2(f):
    u = rnp.frompyfunc(f, 2, 1)
    return lambda a, b: u(a, b)


class SArr(rnp.ndarray):
    """Object array of symbolic reals."""

    def astype(self, dtype=None, *a, **k):
        return self.copy()

    def round(self, decimals=0, out=None):
        return wrap(_vec(lambda x: round(x, decimals) if isinstance(x, Sym) else round(x, decimals))(self))

    def any(self, *a, **k):
        return reduce_bool(self, False, *a, **k)

    def all(self, *a, **k):
        return reduce_bool(self, True, *a, **k)

    def __matmul__(self, o):
        inv = getattr(self, '_inv_of', None)
        if inv is not None:
            return solve(inv, o)
        return wrap(rnp.matmul(plain(self), plain(o)))

    def __rmatmul__(self, o):
        return wrap(rnp.matmul(plain(o), plain(self)))

    def dot(self, o, out=None):
        inv = getattr(self, '_inv_of', None)
        if inv is not None:
            return solve(inv, o)
        return wrap(rnp.dot(plain(self), plain(o)))

    def __array_finalize__(self, obj):
        self._inv_of = None

    def __getitem__(self, i):
        x = rnp.ndarray.__getitem__(self, i)
        return NSym(x.r) if type(x) is Sym else x

    def __iter__(self):
        if self.ndim == 1:
            return iter([as_scalar(x) for x in rnp.ndarray.__iter__(self)])
        return rnp.ndarray.__iter__(self)

    def item(self, *a):
        x = rnp.ndarray.item(self, *a)
        return Sym(x.r) if type(x) is NSym else x

    def tolist(self):
        x = rnp.ndarray.tolist(self)

        def plain_(y):
            return [plain_(t) for t in y] if isinstance(y, list) else (Sym(y.r) if type(y) is NSym else y)
        return plain_(x)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        return wrap(arr) if not (return_scalar and arr.ndim == 0) else arr[()]

    @property
    def real(self):
        return part('real')(plain(self))

    @property
    def imag(self):
        return part('imag')(plain(self))

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    # arithmetic with zero_div semantics of numpy arrays (division by zero gives inf, not an exception)
    def __truediv__(self, o):
        return np_div(self, o)

    def __rtruediv__(self, o):
        return np_div(o, self)

    def __itruediv__(self, o):
        self[...] = np_div(self, o)
        return self


def np_div(a, b):
    c = S.CTX
    if c is None:
        return wrap(rnp.true_divide(plain(a), plain(b)))
    old = c.zero_div
    c.zero_div = 'inf'
    try:
        return wrap(_vdiv(objarr(a), objarr(b)))
    finally:
        c.zero_div = old


def _div1(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return x / y
    if y == 0:
        return _math.nan if x == 0 or x != x else _math.copysign(_math.inf, x)
    return x / y


_vdiv = rnp.frompyfunc(_div1, 2, 1)


def has_sym(x):
    if isinstance(x, (Sym, SymBool, SymC)):
        return True
    if isinstance(x, rnp.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def plain(x):
    """A base-class view, so that numpy's C loops are used without SArr hooks."""
    if isinstance(x, SArr):
        return x.view(rnp.ndarray)
    return x


def objarr(x):
    x = plain(x)
    if isinstance(x, rnp.ndarray):
        return x if x.dtype == object else (x.astype(object) if x.dtype.kind in 'fiu' else x)
    if isinstance(x, (Sym, SymC, int, float, complex)):
        a = rnp.empty((), dtype=object)
        a[()] = x
        return a
    return rnp.array(x, dtype=object)


def wrap(x):
    if isinstance(x, rnp.ndarray):
        if x.dtype == object:
            if x.ndim == 0:
                return as_scalar(x[()])
            return x if isinstance(x, SArr) else x.view(SArr)
        if x.dtype.kind == 'f':
            if x.ndim == 0:
                return float(x)
            return x.astype(object).view(SArr)
        return x
    if type(x) is Sym:
        return NSym(x.r)
    if isinstance(x, rnp.floating):
        return float(x)
    if isinstance(x, tuple):
        return tuple(wrap(y) for y in x) if type(x) is tuple else x
    if isinstance(x, list):
        return [wrap(y) for y in x]
    return x


def _vec(f):
    return rnp.frompyfunc(f, 1, 1)


def reduce_bool(a, is_all, axis=None, **k):
    a = plain(a) if isinstance(a, rnp.ndarray) else rnp.array(a, dtype=object)
    if axis is not None:
        f = rnp.logical_and if is_all else rnp.logical_or
        b = _vec(bool)(a)
        return f.reduce(b.astype(bool), axis=axis)
    for x in a.reshape(-1):
        if is_all and not x:
            return False
        if not is_all and x:
            return True
    return is_all


# ------------------------------------------------------------------ scalar functions
def exact_trig(i):
    def f(x):
        if isinstance(x, Sym):
            return S.cos_sin(x)[i]
        if S.CTX is None:
            return (_math.cos, _math.sin)[i](x)
        r = mk(x)
        if x == 0 or (P.INDEX.get('PI') is not None and P.p_vars(r.r.n) == {P.INDEX.get('PI')}):
            return S.cos_sin(r)[i]
        return (_math.cos, _math.sin)[i](x)
    return f


def lift1(name, fallback):
    def f(x):
        if isinstance(x, Sym) or isinstance(x, SymC):
            return getattr(x, name)()
        if isinstance(x, complex) and name == 'exp':
            return SymC(x.real, x.imag).exp() if S.CTX is not None else cmath.exp(x)
        return fallback(x)
    return f


_cos, _sin = exact_trig(0), exact_trig(1)


def _radians(x):
    if isinstance(x, Sym):
        return x.radians()
    if S.CTX is not None and isinstance(x, (int, float)):
        return mk(x).radians()
    return _math.radians(x)


def _isnan(x):
    return False if isinstance(x, (Sym, SymBool)) else (isinstance(x, float) and x != x or getattr(x, 'is_nan', bool)() is True)


def _fp(name):
    """isnan / isinf / isfinite of one number; symbolic doubles answer themselves."""
    real = getattr(_math, name)

    def f(x):
        if isinstance(x, Sym):
            return name == 'isfinite'
        g = getattr(x, '_fp_' + name, None)
        if g is not None:
            return g()
        return real(x)
    return f


SCALAR = {
    'cos': _cos, 'sin': _sin,
    'tan': lambda x: (lambda c, s: s / c)(_cos(x), _sin(x)),
    'sqrt': lift1('sqrt', lambda x: _math.sqrt(x) if x >= 0 else _math.nan),
    'radians': _radians, 'deg2rad': _radians,
    'degrees': lift1('degrees', _math.degrees), 'rad2deg': lift1('degrees', _math.degrees),
    'exp': lift1('exp', _math.exp), 'log': lift1('log', _math.log),
    'arccos': lift1('arccos', _math.acos), 'arcsin': lift1('arcsin', _math.asin), 'arctan': lift1('arctan', _math.atan),
    'cosh': lift1('cosh', _math.cosh), 'sinh': lift1('sinh', _math.sinh), 'cbrt': lift1('cbrt', lambda t: t ** (1 / 3)),
    'abs': abs, 'absolute': abs, 'fabs': abs,
    'floor': lift1('floor', _math.floor), 'ceil': lift1('ceil', _math.ceil), 'rint': lift1('rint', round),
    'trunc': lift1('__trunc__', _math.trunc),
    'square': lambda x: x * x,
    'sign': lift1('sign', lambda x: (x > 0) - (x < 0)),
    'isnan': _fp('isnan'), 'isinf': _fp('isinf'), 'isfinite': _fp('isfinite'),
    'negative': lambda x: -x, 'positive': lambda x: x,
    'reciprocal': lambda x: np_div(1.0, x),
    'float_power': None,
}
BOOLY = {'isnan', 'isinf', 'isfinite'}


def mkunary(name, f):
    def g(x, *a, **k):
        if isinstance(x, (rnp.ndarray, list, tuple)):
            r = _vec(f)(objarr(x))
            if name in BOOLY:
                return _vec(bool)(r).astype(bool) if isinstance(r, rnp.ndarray) else bool(r)
            return wrap(r)
        if type(x).__module__.startswith('pandas'):
            return x.map(f) if hasattr(x, 'map') else getattr(rnp, name)(x)
        return f(x)
    g.__name__ = name
    return g


# ------------------------------------------------------------------ linear algebra
def det(M):
    M = objarr(M)
    n = M.shape[0]
    if n == 1:
        return M[0, 0]
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    s = 0
    for j in range(n):
        if isinstance(M[0, j], (int, float)) and M[0, j] == 0:
            continue
        sub = rnp.delete(rnp.delete(M, 0, 0), j, 1)
        s = s + (-1) ** j * M[0, j] * det(sub)
    return s


class LinAlgError(ValueError):
    pass


def big(M):
    n = M.shape[0]
    if n > 3:
        return True
    return sum(len(x.r.n) for x in M.reshape(-1) if isinstance(x, Sym)) > 150


def const_matrix(M):
    """Entries as fractions when all are constants."""
    out = []
    for x in M.reshape(-1):
        r = S.to_rat(x)
        if r is None or not r.isconst():
            return None
        out.append(Fraction(P.p_constval(r.n)))
    n = M.shape[0]
    return [out[i * n:(i + 1) * n] for i in range(n)]


def const_inverse(C):
    n = len(C)
    a = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(C)]
    for i in range(n):
        p = next((r for r in range(i, n) if a[r][i]), None)
        if p is None:
            raise rnp.linalg.LinAlgError('Singular matrix')
        a[i], a[p] = a[p], a[i]
        a[i] = [x / a[i][i] for x in a[i]]
        for r in range(n):
            if r != i and a[r][i]:
                f = a[r][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    out = rnp.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = mk(a[i][n + j])
    return out


def inv(M):
    if isinstance(M, SArr) and getattr(M, '_inv_of', None) is not None:
        return wrap(objarr(M._inv_of).copy())
    M = objarr(M)
    if M.ndim > 2:
        return wrap(rnp.array([plain(inv(x)) for x in M], dtype=object))
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise rnp.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = M.shape[0]
    if S.CTX is not None and n > 3:
        C = const_matrix(M)
        if C is not None:
            return wrap(const_inverse(C))
    if not big(M):
        d = det(M)
        if isinstance(d, Sym):
            if not d.isconst():
                if S.ctx().is_zero(d.r):
                    raise rnp.linalg.LinAlgError('Singular matrix')
            elif d.constval() == 0:
                raise rnp.linalg.LinAlgError('Singular matrix')
        elif d == 0:
            raise rnp.linalg.LinAlgError('Singular matrix')
        out = rnp.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                sub = rnp.delete(rnp.delete(M, j, 0), i, 1)
                c = det(sub) if n > 1 else 1
                out[i, j] = (-1) ** (i + j) * c / d if not isinstance(d, Sym) or isinstance(c, Sym) else mk((-1) ** (i + j) * c) / d
        return wrap(out)
    X = inverse_elements(M)
    r = wrap(X.copy())
    r._inv_of = M.copy()
    return r


def keyof(a):
    a = objarr(a)
    ks = []
    for x in a.reshape(-1):
        r = S.to_rat(x)
        ks.append((P.p_freeze(r.n), r.d) if r is not None else x)
    return (a.shape,) + tuple(ks)


def inverse_elements(M):
    """Fresh symbols X with the contract M X = I = X M (the matrix is assumed non-singular: see the harness)."""
    c = S.ctx()
    key = ('inv', keyof(M))
    X = c.opaques.get(key)
    if X is None:
        n = M.shape[0]
        X = rnp.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                X[i, j] = c.fresh_sym('inv', lambda vals, i=i, j=j: num_inverse(c, key, M, vals)[i, j])
        for A, B in ((M, X), (X, M)):
            R = rnp.matmul(A, B)
            for i in range(n):
                for j in range(n):
                    c.lin_fact(R[i, j] - (1 if i == j else 0))
        c.opaques[key] = X
    return X


def evalarr(M, vals):
    M = objarr(M)
    return rnp.array([[P.r_eval(S.to_rat(x), vals) for x in row] for row in M], dtype=float) if M.ndim == 2 else \
        rnp.array([P.r_eval(S.to_rat(x), vals) for x in M], dtype=float)


def num_inverse(c, key, M, vals):
    k = ('num', key)
    if k not in vals:
        vals[k] = rnp.linalg.inv(evalarr(M, vals))
    return vals[k]


def num_solve(key, M, v, vals):
    k = ('num', key)
    if k not in vals:
        vals[k] = rnp.linalg.solve(evalarr(M, vals), evalarr(v, vals))
    return vals[k]


def solve(M, v):
    M, v = objarr(M), objarr(v)
    if not big(M) or (M.shape[0] > 3 and const_matrix(M) is not None):
        return wrap(rnp.matmul(plain(inv(M)), v))
    if v.ndim == 2:
        return wrap(rnp.stack([plain(solve(M, v[:, j])) for j in range(v.shape[1])], axis=1))
    c = S.ctx()
    key = ('solve', keyof(M), keyof(v))
    y = c.opaques.get(key)
    if y is None:
        n = M.shape[0]
        y = rnp.empty(n, dtype=object)
        for i in range(n):
            y[i] = c.fresh_sym('sol', lambda vals, i=i: num_solve(key, M, v, vals)[i])
        R = rnp.matmul(M, y)
        for i in range(n):
            c.lin_fact(R[i] - v[i])
        c.opaques[key] = y
    return wrap(y.copy())


class _NS(types.ModuleType):
    def __init__(self, name, attrs, fallback=None):
        super().__init__(name)
        self.__dict__.update(attrs)
        self.__dict__['_fallback'] = fallback

    def __getattr__(self, k):
        f = self.__dict__.get('_fallback')
        if f is None or k.startswith('__'):
            raise AttributeError(k)
        v = getattr(f, k)
        if isinstance(v, types.ModuleType):
            v = _NS(v.__name__, {}, v)
        elif callable(v) and not isinstance(v, type):
            v = passthrough(v)
        self.__dict__[k] = v
        return v


def passthrough(f):
    @functools.wraps(f)
    def g(*a, **k):
        k.pop('dtype', None) if any(has_sym(x) for x in a) else None
        try:
            return wrap(f(*[plain(x) for x in a], **k))
        except (TypeError, AttributeError) as e:
            if any(has_sym(x) for x in a):
                raise_unsupported('%s: %s' % (getattr(f, '__name__', f), e))
            raise
    if isinstance(f, rnp.ufunc):
        for n in ('outer', 'reduce', 'accumulate', 'reduceat'):
            setattr(g, n, passthrough(getattr(f, n)))
    return g


def hypot_(x, y):
    return SCALAR['sqrt'](x * x + y * y) if isinstance(x, Sym) or isinstance(y, Sym) else _math.hypot(x, y)


def norm_(x, *a, **k):
    x = objarr(x)
    if a or k:
        raise_unsupported('norm with options')
    s = 0
    for y in x.reshape(-1):
        s = s + y * y
    return SCALAR['sqrt'](s)


def matrix_power(M, n):
    if n < 0:
        M, n = inv(M), -n
    r = wrap(rnp.eye(objarr(M).shape[0]).astype(object))
    for _ in range(n):
        r = r @ M
    return r


def multi_dot(xs):
    r = xs[-1]
    for x in reversed(xs[:-1]):
        r = wrap(x) @ r if not isinstance(x, SArr) else x @ r
    return r


linalg = _NS('numpy.linalg', dict(
    inv=inv, solve=solve, det=lambda M: det(M), pinv=inv, norm=norm_, multi_dot=multi_dot, matrix_power=matrix_power, lstsq=lambda M, v, rcond=None: lstsq(M, v),
    LinAlgError=rnp.linalg.LinAlgError), rnp.linalg)


# ------------------------------------------------------------------ numpy
def array(x, dtype=None, copy=True, **k):
    if isinstance(x, rnp.ndarray):
        r = plain(x).copy()
    else:
        if isinstance(x, (Sym, SymBool, SymC)):
            return x
        x = _listify(x)
        if has_sym(x):
            r = rnp.array(_unwrap(x), dtype=object)
        else:
            r = rnp.array(_unwrap(x), dtype=None if is_float_dtype(dtype) else dtype)
    if dtype is not None and is_float_dtype(dtype) and r.dtype.kind in 'iu':
        r = r.astype(object)
        r[...] = _vec(lambda t: t)(r)
        return r.view(SArr) if r.ndim else r[()]
    if dtype is not None and is_int_dtype(dtype):
        if r.dtype == object:
            r = _vec(int)(r).astype(int)
        return r
    if dtype is bool and r.dtype == object:
        return _vec(bool)(r).astype(bool)
    return wrap(r) if r.ndim or r.dtype.kind not in 'f' else float(r)


def _listify(x):
    if isinstance(x, (list, tuple)):
        return x
    if hasattr(x, '__iter__') and not isinstance(x, (str, bytes, dict, rnp.ndarray)) and not type(x).__module__.startswith('pandas'):
        return list(x) if hasattr(x, '__len__') else x
    return x


def _unwrap(x):
    if isinstance(x, (list, tuple)):
        return [_unwrap(y) for y in x]
    if isinstance(x, SArr):
        return plain(x).tolist() if x.ndim else x[()]
    return x


def is_float_dtype(d):
    return d is not None and (d is float or getattr(d, '__name__', None) in ('float', 'float64', 'float32', 'longdouble', 'SFloat')
                              or d in ('float', 'float64', 'd', 'f8'))


def is_int_dtype(d):
    return d is not None and (d is int or getattr(d, '__name__', '') in ('int', 'int64', 'int32', 'SInt') or d in ('int', 'int64', 'i8'))


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        return x
    return array(x, dtype)


def filled(v):
    def f(shape, dtype=None, *a, **k):
        if dtype is not None and not is_float_dtype(dtype) and dtype is not object:
            return rnp.full(shape, v, dtype=int if is_int_dtype(dtype) else dtype)
        return wrap(rnp.full(shape, v, dtype=object))
    return f


def full(shape, fill_value, dtype=None, **k):
    if is_int_dtype(dtype) or (dtype is None and isinstance(fill_value, (int, bool)) and not isinstance(fill_value, Sym)):
        return rnp.full(shape, fill_value, dtype=dtype if dtype is None else int)
    r = rnp.empty(shape, dtype=object)
    r[...] = fill_value if not isinstance(fill_value, rnp.ndarray) else plain(fill_value)
    return wrap(r)


def like(v):
    def f(a, dtype=None, **k):
        if isinstance(a, rnp.ndarray) and a.dtype.kind in 'iub' and dtype is None:
            return rnp.full(a.shape, v, dtype=a.dtype)
        return filled(v)(objarr(a).shape, dtype)
    return f


def eye(n, m=None, *a, **k):
    r = rnp.eye(n, m, *a).astype(int).astype(object)
    r[...] = _vec(float)(r)
    return wrap(r)


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    n = num - 1 if endpoint else num
    if not isinstance(a, Sym) and not isinstance(b, Sym) and S.CTX is None:
        return rnp.linspace(a, b, num, endpoint)
    a, b = mk(a), mk(b)
    out = rnp.empty(num, dtype=object)
    for i in range(num):
        out[i] = a if i == 0 else (a * (n - i) + b * i) / n
    r = wrap(out)
    return (r, (b - a) / n) if retstep else r


def arange(*a, **k):
    if all(isinstance(x, int) for x in a):
        r = rnp.arange(*a)
        return wrap(r.astype(object)) if is_float_dtype(k.get('dtype')) else r
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    out = []
    x = mk(lo)
    while x < hi:
        out.append(x)
        x = x + st
        if len(out) > 5000:
            raise_unsupported('arange')
    return wrap(rnp.array(out, dtype=object))


def where(cond, *xy):
    if not xy:
        c = _vec(bool)(objarr(cond)).astype(bool) if not (isinstance(cond, rnp.ndarray) and cond.dtype == bool) else cond
        return rnp.where(c)
    x, y = xy
    c = cond if isinstance(cond, rnp.ndarray) else rnp.array(bool(cond)) if isinstance(cond, (SymBool, bool, rnp.bool_)) else rnp.array(cond, dtype=object)
    if type(cond).__module__.startswith('pandas'):
        c = cond.to_numpy()
    if c.dtype == object:
        c = rnp.array(_vec(bool)(c)).astype(bool)
    return wrap(rnp.where(c, objarr(x if not type(x).__module__.startswith('pandas') else x.to_numpy()),
                          objarr(y if not type(y).__module__.startswith('pandas') else y.to_numpy())))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if S.nonfinite(x) or S.nonfinite(y):
            return x == y
        d = abs(x - y) <= mk(atol) + mk(rtol) * abs(y)
        return bool(d)
    r = rnp.frompyfunc(f, 2, 1)(objarr(a), objarr(b))
    return r.astype(bool) if isinstance(r, rnp.ndarray) else r


def allclose(a, b, **k):
    return bool(rnp.all(isclose(a, b, **k)))


def array_equal(a, b, **k):
    if a is None or b is None:
        return a is b
    a, b = objarr(a), objarr(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if not x == y:
            return False
    return True


def matmul(a, b):
    if isinstance(a, SArr):
        return a @ b
    return wrap(rnp.matmul(plain(objarr(a)), plain(objarr(b))))


def dot(a, b, out=None):
    if isinstance(a, SArr):
        return a.dot(b)
    return wrap(rnp.dot(objarr(a), objarr(b)))


def einsum(spec, *ops, **k):
    return wrap(rnp.einsum(spec, *[plain(objarr(o)) for o in ops], optimize=False))


def cross_max(name):
    f = {'max': max, 'min': min}[name]

    def g(a, axis=None, **k):
        a = objarr(a)
        if axis is None:
            return f(a.reshape(-1).tolist(), **{x: y for x, y in k.items() if x == 'default'})
        return wrap(rnp.apply_along_axis(lambda v: f(v.tolist()), axis, a))
    return g


def maximum(a, b):
    return wrap(rnp.frompyfunc(lambda x, y: x if x >= y else y, 2, 1)(objarr(a), objarr(b)))


def minimum(a, b):
    return wrap(rnp.frompyfunc(lambda x, y: x if x <= y else y, 2, 1)(objarr(a), objarr(b)))


def clip(a, lo=None, hi=None, **k):
    lo = k.get('a_min', lo)
    hi = k.get('a_max', hi)
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def arctan2(y, x):
    raise_unsupported('arctan2')


def power(a, b):
    return wrap(objarr(a) ** b) if isinstance(a, (rnp.ndarray, list, tuple)) else a ** b


def divide(a, b, **k):
    return np_div(a, b)


def count_nonzero(a, **k):
    return sum(1 for x in objarr(a).reshape(-1) if x)


class Float64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, rnp.float64)


class float64_(metaclass=Float64Meta):
    """np.float64"""
    def __new__(cls, x=0.0):
        if isinstance(x, (Sym, SymBool)):
            return x
        return SFloat(x)


class Vectorize:
    def __init__(self, f, *a, **k):
        self.f = f

    def __call__(self, *a):
        return wrap(rnp.frompyfunc(self.f, len(a), 1)(*[objarr(x) for x in a]))


def meshgrid(*xs, **k):
    return [wrap(x) for x in rnp.meshgrid(*[objarr(x) for x in xs], **k)]


def diag(v, k=0):
    return wrap(rnp.diag(objarr(v), k))


def polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


def trapz(y, x=None, dx=1.0, axis=-1):
    y = objarr(y)
    s = 0
    for i in range(len(y) - 1):
        s = s + (y[i + 1] + y[i]) / 2 * ((x[i + 1] - x[i]) if x is not None else dx)
    return s


def prod(a, *r, **k):
    return wrap(rnp.prod(objarr(a), *r, **k))


def sum_(a, axis=None, **k):
    if not isinstance(a, rnp.ndarray):
        a = objarr(list(a) if not isinstance(a, (list, tuple)) else a)
    k.pop('dtype', None)
    return wrap(rnp.sum(plain(a), axis=axis, **k))


def fromiter(it, dtype=None, count=-1):
    return array(list(it))


def make_numpy():
    d = dict(
        linalg=linalg, array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, copy=lambda a, **k: array(a),
        zeros=filled(0.0), ones=filled(1.0), empty=filled(0.0), full=full,
        zeros_like=like(0.0), ones_like=like(1.0), empty_like=like(0.0),
        full_like=lambda a, v, **k: full(objarr(a).shape, v), eye=eye, identity=eye, linspace=linspace, arange=arange,
        where=where, isclose=isclose, allclose=allclose, array_equal=array_equal, matmul=matmul, dot=dot, einsum=einsum,
        max=cross_max('max'), amax=cross_max('max'), min=cross_max('min'), amin=cross_max('min'), nanmin=cross_max('min'),
        nanmax=cross_max('max'), maximum=maximum, minimum=minimum, fmax=maximum, fmin=minimum, clip=clip, arctan2=arctan2,
        power=power, divide=divide, true_divide=divide, count_nonzero=count_nonzero, float64=float64_, vectorize=Vectorize,
        meshgrid=meshgrid, diag=diag, polyval=polyval, trapz=trapz, trapezoid=trapz, prod=prod, sum=sum_, fromiter=fromiter,
        all=lambda a, axis=None, **k: reduce_bool(a, True, axis), any=lambda a, axis=None, **k: reduce_bool(a, False, axis),
        ndarray=rnp.ndarray, pi=_math.pi, inf=_math.inf, nan=_math.nan, newaxis=None, isscalar=lambda x: isinstance(x, Sym) or rnp.isscalar(x),
        errstate=rnp.errstate, set_printoptions=rnp.set_printoptions, isreal=lambda x: True, real=part('real'), imag=part('imag'),
        conj=part('conj'), conjugate=part('conj'), real_if_close=real_if_close, float_power=power, copysign=binary(_copysign),
        heaviside=binary(_heaviside), interp=interp, nditer=lambda a, *r, **k: iter([y for y in objarr(a).reshape(-1)]), hypot=lambda x, y: wrap(_vec2(hypot_)(objarr(x), objarr(y))), nan_to_num=lambda x, **k: x,
    )
    for n, f in SCALAR.items():
        if f is not None:
            d[n] = mkunary(n, f)
    return _NS('numpy', d, rnp)


def part(name):
    """np.real, np.imag, np.conj, and the .real and .imag of an array."""
    def one(x):
        return getattr(x, 'conjugate')() if name == 'conj' else getattr(x, name)

    def g(x, *a, **k):
        if isinstance(x, (list, tuple, rnp.ndarray)):
            return wrap(_vec(one)(objarr(x)))
        return one(x)
    return g


def real_if_close(x, *a, **k):
    v = objarr(x)
    return x if not any(isinstance(y, (SymC, complex)) for y in v.reshape(-1)) else raise_unsupported('real_if_close')


def lstsq(M, v, rcond=None):
    M = objarr(M)
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise_unsupported('least squares of a system that is not square')
    return solve(M, v), rnp.array([]), M.shape[0], None


def _copysign(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return abs(a) if b >= 0 else -abs(a)
    return _math.copysign(a, b)


def _heaviside(x, h):
    return 0.0 if x < 0 else (1.0 if x > 0 else h)


def binary(f):
    def g(a, b, *r, **k):
        return wrap(_vec2(f)(objarr(a), objarr(b)))
    return g


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise_unsupported('periodic interpolation')
    xp, fp = list(objarr(xp)), list(objarr(fp))

    def one(t):
        if t < xp[0]:
            return fp[0] if left is None else left
        for i in range(len(xp) - 1):
            if t < xp[i + 1]:
                return fp[i] + (fp[i + 1] - fp[i]) * (t - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1] if right is None or t == xp[-1] else right
    return wrap(_vec(one)(objarr(x)))


def make_cmath():
    f = SCALAR['exp']
    return _NS('cmath', dict(exp=lambda x: f(S.SymC.of(x)), pi=_math.pi, rect=lambda r, t: S.SymC(r * _cos(t), r * _sin(t)),
                             inf=_math.inf, nan=_math.nan), cmath)


# ------------------------------------------------------------------ math
def make_math():
    d = {}
    for n in ('cos', 'sin', 'tan', 'sqrt', 'radians', 'degrees', 'exp', 'log', 'cosh', 'sinh', 'fabs', 'floor', 'ceil',
              'trunc', 'isnan', 'isinf', 'isfinite'):
        d[n] = SCALAR[n]
    d.update(acos=SCALAR['arccos'], asin=SCALAR['arcsin'], atan=SCALAR['arctan'], pi=_math.pi, inf=_math.inf, nan=_math.nan,
             e=_math.e, tau=_math.tau)

    def fsum(xs):
        s = 0.0
        for x in xs:
            s = s + x
        return s

    def prod_(xs, *, start=1):
        for x in xs:
            start = start * x
        return start

    def isclose_(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if S.nonfinite(a) or S.nonfinite(b):
            return a == b
        return bool(S.or_(abs(a - b) <= mk(rel_tol) * abs(a), abs(a - b) <= mk(rel_tol) * abs(b), abs(a - b) <= mk(abs_tol)))

    def pow_(a, b):
        return a ** b if isinstance(a, Sym) or isinstance(b, Sym) else _math.pow(a, b)

    def hypot(*xs):
        return SCALAR['sqrt'](fsum(x * x for x in xs))

    def copysign(a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return abs(a) if b >= 0 else -abs(a)
        return _math.copysign(a, b)
    d.update(fsum=fsum, prod=prod_, isclose=isclose_, pow=pow_, hypot=hypot, copysign=copysign)
    return _NS('math', d, _math)


# ------------------------------------------------------------------ builtins
class FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.float) or (isinstance(x, Sym) and not S.ctx().is_int(x)) or getattr(x, '_is_symfloat', False) is True

    def __subclasscheck__(cls, c):
        return issubclass(c, _b.float) or c is Sym or type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls or o is _b.float

    def __hash__(cls):
        return hash(_b.float)


class SFloat(_b.float, metaclass=FMeta):
    """float as the code under test sees it."""

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return Sym(x.r) if type(x) is NSym else x
        if isinstance(x, SymBool):
            return _b.float(bool(x))
        f = getattr(x, '_symfloat', None)
        if f is not None:
            return f()
        if isinstance(x, SymStr):
            return x.val
        if isinstance(x, str) and S.CTX is not None:
            v = S.CTX.literals.get(x.strip().lstrip('+'))
            if v is not None:
                return v
            if x.strip().startswith('-'):
                v = S.CTX.literals.get(x.strip()[1:].strip())
                if v is not None:
                    return -v
            t = token_of(x)
            if t is not None:
                return t
        if isinstance(x, SArr):
            return cls(x.reshape(-1)[0]) if x.size == 1 else x.__float__()
        return _b.float(x)

    @staticmethod
    def is_integer(x):
        return x.is_integer()

    fromhex = _b.float.fromhex


def token_of(x):
    x = x.strip()
    if x.startswith('\u27e6') and x.endswith('\u27e7') and x[1:-1].isdigit():
        return S.CTX.tokens[_b.int(x[1:-1])][0]
    return None


class IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.int) or (isinstance(x, Sym) and S.CTX is not None and S.CTX.is_int(x)) or getattr(x, '_is_symint', False) is True

    def __subclasscheck__(cls, c):
        return issubclass(c, _b.int) or type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls or o is _b.int

    def __hash__(cls):
        return hash(_b.int)


class SInt(_b.int, metaclass=IMeta):
    def __new__(cls, x=0, base=None):
        if isinstance(x, Sym):
            r = x.__trunc__()
            return _b.int(r.constval()) if isinstance(r, Sym) and r.isconst() else r
        f = getattr(x, '_symint', None)
        if f is not None:
            return f()
        if isinstance(x, SymBool):
            return _b.int(bool(x))
        if isinstance(x, str) and S.CTX is not None:
            v = S.CTX.literals.get(x.strip().lstrip('+'))
            if v is not None and S.CTX.is_int(v):
                return v
            t = token_of(x)
            if t is not None:
                return SInt(t)
        return _b.int(x) if base is None else _b.int(x, base)


def s_round(x, nd=None):
    return x.__round__(nd) if isinstance(x, Sym) else _b.round(x, nd)


def s_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


class SymStr(str):
    """A table entry selected by a symbolic index; the solver variable of its value."""
    val = None


def s_eval(src, g=None, l=None):
    if isinstance(src, SymStr):
        return src.val
    if g is None:
        fr = sys._getframe(1)
        return _b.eval(src, fr.f_globals, l if l is not None else fr.f_locals)
    return _b.eval(src, g) if l is None else _b.eval(src, g, l)


class SymTable(dict):
    """A dict of strings with integer or integer-tuple keys; a symbolic key gives a symbolic value constrained by all
    its entries at once."""

    def __getitem__(self, k):
        if isinstance(k, tuple) and any(isinstance(x, Sym) and not x.isconst() for x in k):
            return self._lookup(k)
        if isinstance(k, Sym) and not k.isconst():
            return self._lookup((k,))
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def _lookup(self, k):
        c = S.ctx()
        key = ('table', id(self), tuple((P.p_freeze(x.r.n) if isinstance(x, Sym) else x) for x in k))
        s = c.opaques.get(key)
        if s is None:
            zk = [c.z.poly(x.r.n) if isinstance(x, Sym) else z3.RealVal(x) for x in k]
            v = c.fresh_sym('entry', None)
            zv = c.z.v(next(iter(P.p_vars(v.r.n))))
            alts = []
            inside = []
            cache = c.tablecache.setdefault(id(self), {})
            for kk, txt in self.items():
                kt = kk if isinstance(kk, tuple) else (kk,)
                num = cache.get(kk)
                if num is None:
                    q = _b.eval(txt) if isinstance(txt, str) else txt
                    num = cache[kk] = c.z.const(P.p_constval(S.to_rat(q).n))
                conds = [a == b for a, b in zip(zk, kt)]
                alts.append(z3.And(*conds, zv == num))
                inside.append(z3.And(*conds))
            if not S.SymBool('z3', None, (z3.Or(*inside), lambda vals: True)):
                raise KeyError(k)
            c.axiom(z3.Or(*alts))
            if isinstance(txt, str):
                s = SymStr('<symbolic table entry>')
                s.val = v
            else:
                s = v
            c.opaques[key] = s
            def val(vals, k=k, self=self):
                kk = tuple(int(round(P.r_eval(x.r, vals))) if isinstance(x, Sym) else x for x in k)
                t = dict.__getitem__(self, kk if len(kk) > 1 or isinstance(next(iter(self)), tuple) else kk[0])
                return _b.float(_b.eval(t) if isinstance(t, str) else t)
            c.defs.append((next(iter(P.p_vars(v.r.n))), val))
        return s


def symtable(v):
    """Can a symbolic index be looked up in this dict at once?"""
    return type(v) is dict and len(v) >= 10 and (
        all(isinstance(x, str) for x in v.values()) or
        all(isinstance(x, (_b.int, _b.float, Sym)) and S.to_rat(x) is not None and S.to_rat(x).isconst() for x in v.values())) and \
        all(isinstance(x, _b.int) or (isinstance(x, tuple) and all(isinstance(y, _b.int) for y in x)) for x in v)


def struct_key(x):
    if isinstance(x, Sym):
        return ('sym', P.p_freeze(x.r.n), x.r.d)
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(struct_key(y) for y in x)
    if isinstance(x, (_b.int, _b.float, str, bytes, type(None), frozenset)):
        return x
    hash(x)
    return ('obj', id(x), x)


def lru_cache(maxsize=128, typed=False):
    """functools.lru_cache whose keys compare symbolic numbers by their form."""
    def deco(f):
        memo = {}

        @functools.wraps(f)
        def g(*a, **k):
            key = (tuple(struct_key(x) if not isinstance(x, list) else hash(x) for x in a), tuple(sorted((n, struct_key(v)) for n, v in k.items())))
            if key not in memo:
                memo[key] = f(*a, **k)
            return memo[key]
        g.cache_clear = memo.clear
        g.cache_info = lambda: None
        return g
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def make_functools():
    return _NS('functools', dict(lru_cache=lru_cache, cache=lambda f: lru_cache(None)(f), wraps=functools.wraps, reduce=functools.reduce,
                                 partial=functools.partial, cached_property=functools.cached_property,
                                 total_ordering=functools.total_ordering, singledispatch=functools.singledispatch), functools)


# ------------------------------------------------------------------ scipy
class SMat(SArr):
    """A sparse matrix is represented densely."""
    def toarray(self):
        return self.copy()
    todense = tocsr = tocsc = toarray

    def getnnz(self, *a):
        return self.size


def sparse(x, *a, **k):
    r = objarr(x).copy().view(SMat)
    r._inv_of = None
    return r


EIGLOG = []


def evalmat(M, vals):
    return evalarr(M, vals)


def num_eig(key, A, B, vals):
    k = ('num', key)
    if k not in vals:
        import scipy.linalg
        w, v = scipy.linalg.eigh(evalarr(A, vals), evalarr(B, vals) if B is not None else None)
        vals[k] = (w, v)
    return vals[k]


def same_pencil(c, A, B):
    """An earlier problem whose matrices z3 shows equal to these: it has the same solution."""
    from .engine import same_forms
    for p in EIGLOG:
        if p['n'] != A.shape[0] or (p['B'] is None) != (B is None):
            continue
        xs = list(A.reshape(-1)) + ([] if B is None else list(B.reshape(-1)))
        ys = list(p['A'].reshape(-1)) + ([] if B is None else list(p['B'].reshape(-1)))
        if same_forms(c, [(S.to_rat(x), S.to_rat(y)) for x, y in zip(xs, ys)]):
            return p
    return None


def pencil(A, B):
    """The spectrum of A x = w B x (B positive definite): all n eigenvalues, ascending, with eigenvectors, as fresh
    symbols; the contract facts are stated on the products A x and B x."""
    c = S.ctx()
    A = objarr(A)
    n = A.shape[0]
    B = objarr(B) if B is not None else None
    key = ('pencil', keyof(A), keyof(B) if B is not None else None)
    p = c.opaques.get(key)
    if p is None:
        p = same_pencil(c, A, B)
        if p is not None:
            c.opaques[key] = p
    if p is None:
        w, X = [], rnp.empty((n, n), dtype=object)
        for i in range(n):
            w.append(c.fresh_sym('mu', lambda vals, i=i: num_eig(key, A, B, vals)[0][i]))
            for j in range(n):
                X[j, i] = c.fresh_sym('x', lambda vals, i=i, j=j: num_eig(key, A, B, vals)[1][j, i])
        for i in range(1, n):
            c.fact(w[i - 1] <= w[i])
        for x, (lo, hi) in zip(w, enclosures(A, B)):
            c.fact(x >= lo)
            c.fact(x <= hi)
        p = c.opaques[key] = dict(w=w, X=X, A=A, B=B, n=n, stated=set())
        EIGLOG.append(p)
    return p


def enclosures(A, B):
    """Intervals for the eigenvalues of a problem whose matrices are numbers (LAPACK's values, widened)."""
    import scipy.linalg
    try:
        w = scipy.linalg.eigh(evalarr(A, {}), evalarr(B, {}) if B is not None else None, eigvals_only=True)
    except Exception:
        return []
    tol = 1e-7 * _b.max(_b.abs(w))
    return [(float(x - tol), float(x + tol)) for x in w]


def state(p, i):
    """A x_i = w_i B x_i"""
    c = S.ctx()
    if i in p['stated']:
        return
    p['stated'].add(i)
    x = p['X'][:, i]
    L = rnp.matmul(p['A'], x)
    R = rnp.matmul(p['B'], x) if p['B'] is not None else x
    for l, r in zip(L, R):
        c.lin_fact(l - p['w'][i] * r)


def eigsh(A, k=6, M=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0, return_eigenvectors=True,
          Minv=None, OPinv=None, mode='normal', rng=None):
    c = S.ctx()
    n = objarr(A).shape[0]
    k = int(k)
    if not 0 < k < n:
        raise ValueError('k must be between 1 and ndim(A)-1')
    if getattr(c, 'eigfail', None) is not None:
        import scipy.sparse.linalg
        c.eigfail.append(1)
        raise scipy.sparse.linalg.ArpackError(-9999)
    p = pencil(A, M)
    w = p['w']
    c.eigcalls.append(dict(A=A, M=M, k=k, which=which, sigma=sigma, mode=mode, pencil=p))

    def score(i):
        if sigma is None:
            return w[i]
        m = w[i]
        if mode == 'normal':
            return 1 / (m - sigma)
        if mode == 'cayley':
            return (m + sigma) / (m - sigma)
        if mode == 'buckling':
            return m / (m - sigma)
        raise ValueError('mode')
    if which not in ('LM', 'SM', 'LA', 'SA', 'BE'):
        raise ValueError("which must be one of ...")
    if sigma is None and which in ('SA', 'LA'):
        sel = list(range(k)) if which == 'SA' else list(range(n - k, n))
    elif which == 'BE':
        raise_unsupported('eigsh BE')
    else:
        sc = [score(i) for i in range(n)]
        sc = [abs(s) for s in sc] if which in ('LM', 'SM') else sc
        order = _b.sorted(range(n), key=functools.cmp_to_key(lambda i, j: -1 if sc[i] < sc[j] else (1 if sc[j] < sc[i] else 0)))
        sel = _b.sorted(order[:k] if which in ('SM', 'SA') else order[n - k:])
    for i in sel:
        state(p, i)
    vals = wrap(rnp.array([w[i] for i in sel], dtype=object))
    if not return_eigenvectors:
        return vals
    return vals, wrap(p['X'][:, sel].copy())


def eigh(a, b=None, lower=True, eigvals_only=False, subset_by_index=None, eigvals=None, **k):
    p = pencil(a, b)
    idx = range(p['n'])
    if subset_by_index is not None:
        idx = range(subset_by_index[0], subset_by_index[1] + 1)
    for i in idx:
        state(p, i)
    S.ctx().eigcalls.append(dict(A=a, M=b, k=len(idx), which='eigh', sigma=None, mode='', pencil=p))
    vals = wrap(rnp.array([p['w'][i] for i in idx], dtype=object))
    if eigvals_only:
        return vals
    return vals, wrap(p['X'][:, list(idx)].copy())


class Recorded:
    def __init__(self, kind, args, kw):
        self.kind, self.args, self.kw = kind, args, kw
        names = {'NonlinearConstraint': ('fun', 'lb', 'ub'), 'LinearConstraint': ('A', 'lb', 'ub'),
                 'Bounds': ('lb', 'ub')}.get(kind, ())
        for n, v in zip(names, args):
            setattr(self, n, v)
        for n, v in kw.items():
            setattr(self, n, v)


def recorder(kind):
    def f(*a, **k):
        return Recorded(kind, a, k)
    f.__name__ = kind
    return f


class Log(list):
    x = None


def make_minimize(log):
    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        call = dict(fun=fun, x0=x0, args=args, method=method, jac=jac, bounds=bounds, constraints=constraints, tol=tol,
                    options=options)
        x = getattr(log, 'x', None)
        call['result'] = OptResult(x=x0 if x is None else x, fun=None, success=True, call=len(log))
        log.append(call)
        return call['result']
    return minimize


class Chameleon:
    """Stand-in for drawing objects: every call is recorded, every attribute exists."""

    def __init__(self, log, path=()):
        self.__dict__['_log'] = log
        self.__dict__['_path'] = path

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Chameleon(self._log, self._path + (k,))

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        self._log.append((self._path[-1] if self._path else '', a, k))
        if self._path and self._path[-1] == 'subplots':
            return Chameleon(self._log, ('fig',)), Chameleon(self._log, ('ax',))
        return Chameleon(self._log, self._path)

    def __getitem__(self, k):
        return self

    def __iter__(self):
        return iter(())


def patch_pandas():
    """Real pandas, with idxmin/idxmax/min/max over object columns done by comparisons."""
    import pandas as pd
    if getattr(pd, '_symx', False):
        return pd
    pd._symx = True
    real = {}

    def nanlike(x):
        return isinstance(x, _b.float) and x != x

    def arg(row, less):
        best = None
        for i, x in enumerate(row):
            if nanlike(x):
                continue
            if best is None or less(x, row[best]):
                best = i
        return best

    def mkidx(name, less):
        orig = getattr(pd.DataFrame, name)

        def f(self, axis=0, skipna=True, numeric_only=False, **k):
            if axis in (1, 'columns') and any(d == object for d in self.dtypes):
                cols = list(self.columns)
                arr = [self[c].tolist() for c in cols]
                out = []
                for r in zip(*arr):
                    j = arg(list(r), less)
                    if j is None:
                        raise ValueError('Encountered all NA values')
                    out.append(cols[j])
                return pd.Series(out, index=self.index)
            return orig(self, axis=axis, skipna=skipna, numeric_only=numeric_only, **k)
        setattr(pd.DataFrame, name, f)
    mkidx('idxmin', lambda a, b: bool(a < b))
    mkidx('idxmax', lambda a, b: bool(a > b))

    def mkred(name, less):
        orig = getattr(pd.DataFrame, name)

        def f(self, axis=0, *a, **k):
            if axis in (1, 'columns') and any(d == object for d in self.dtypes):
                arr = [self[c].tolist() for c in self.columns]
                out = []
                for r in zip(*arr):
                    j = arg(list(r), less)
                    out.append(_math.nan if j is None else r[j])
                return pd.Series(out, index=self.index, dtype=object)
            return orig(self, axis, *a, **k)
        setattr(pd.DataFrame, name, f)
    mkred('min', lambda a, b: bool(a < b))
    mkred('max', lambda a, b: bool(a > b))
    oclip = pd.Series.clip

    def clip_(self, lower=None, upper=None, **k):
        if self.dtype == object:
            def f(x):
                if lower is not None and x < lower:
                    return lower
                if upper is not None and x > upper:
                    return upper
                return x
            return self.map(f)
        return oclip(self, lower, upper, **k)
    pd.Series.clip = clip_

    def inf_div(orig):
        def f(self, other, *a, **k):
            c = S.CTX
            if c is None:
                return orig(self, other, *a, **k)
            old, c.zero_div = c.zero_div, 'inf'
            try:
                return orig(self, other, *a, **k)
            finally:
                c.zero_div = old
        return f
    for cls in (pd.Series, pd.DataFrame):
        for n in ('__truediv__', '__rtruediv__', 'div', 'truediv', 'divide', 'rdiv', 'rtruediv'):
            setattr(cls, n, inf_div(getattr(cls, n)))
    oast = pd.Series.astype

    def astype_(self, dtype, *a, **k):
        if self.dtype == object and (dtype is _b.float or is_float_dtype(dtype)):
            return self.copy()
        return oast(self, dtype, *a, **k)
    pd.Series.astype = astype_
    return pd
