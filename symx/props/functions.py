"""C13, C14: shape functions and pre-integrated terms."""
from fractions import Fraction

from .. import bardell

FN = 'composipy.pre_integrated_component.functions'
N1, N2 = 50, 50
ACC = {'ii_ff': (0, 0), 'ii_fxi_f': (1, 0), 'ii_f_fxi': (0, 1), 'ii_fxi_fxi': (1, 1), 'ii_fxixi_f': (2, 0), 'ii_f_fxixi': (0, 2),
       'ii_fxixi_fxi': (2, 1), 'ii_fxi_fxixi': (1, 2), 'ii_fxixi_fxixi': (2, 2)}


def exact(x):
    """Oracle side: exact value at a float."""
    return Fraction(x) if isinstance(x, float) else x


def size(i, x):
    return float(sum(abs(c) for c in bardell.poly(i)))


def point(h, name):
    x = h.real(name, (-1.0, 1.0))
    h.assume(x >= -1)
    h.assume(x <= 1)
    return x


def val(h, i, x):
    v = bardell.value(i, exact(x))
    return v if h.symbolic else float(v)


def c13_one(h):
    F = h.mod(FN)
    x = point(h, 'xi')
    lo = h.choice('from', list(range(0, N1, 10)))
    for i in range(lo, lo + 10):
        h.eq('f_%d' % i, F.fxi(i, x), val(h, i, x), scale=None if h.symbolic else max(1e-3, 1e-9 * size(i, x)), tol=1e-6, coef_tol=1e-16)


def c13_two(h):
    F = h.mod(FN)
    x, y = point(h, 'xi'), point(h, 'eta')
    i = h.choice('i', list(range(N2)) if h.thorough else list(range(0, 26)))
    js = list(range(N2)) if h.thorough else list(range(0, 26))
    rev = h.choice('order', ['ij', 'mixed']) if i in (3, 7) else 'ij'
    idx = [(i, j) for j in js]
    if rev == 'mixed':
        idx = [(j, i) for j in reversed(js)] + [(i, 2)]
    got = F.sxieta(idx, x, y)
    want = [val(h, a, x) * val(h, b, y) for a, b in idx]
    for (a, b), g, w in zip(idx, got, want):
        h.eq('s_%d_%d' % (a, b), g, w, scale=None if h.symbolic else max(1e-3, 1e-9 * size(a, x) * size(b, y)), coef_tol=1e-16)
    h.eq('number of values', len(got), len(idx))


_tab = {}


def table(di, dk):
    if (di, dk) not in _tab:
        _tab[di, dk] = {(i, k): bardell.inner(i, di, k, dk) for i in range(30) for k in range(30)}
    return _tab[di, dk]


_tol = {}


def tolerance(di, dk):
    """1e-9 of the integral, 1e-8 where it is zero."""
    if (di, dk) not in _tol:
        _tol[di, dk] = {p: abs(w) / 10 ** 9 if w else Fraction(1, 10 ** 8) for p, w in table(di, dk).items()}
    return _tol[di, dk]


def accessor(name):
    di, dk = ACC[name]

    def c14(h):
        F = h.mod(FN)
        i, k = h.int_('i', 0, 29), h.int_('k', 0, 29)
        got = getattr(F, name)((i, k))
        want = h.table(table(di, dk), (i, k))
        tol = h.table(tolerance(di, dk), (i, k))
        d = got - want
        h.record('value', [got])
        h.true('|%s - integral| within tolerance' % name, (d <= tol) & (d >= -tol))
    return c14


PROPS = {
    'C13': dict(parts=dict(one=c13_one, two=c13_two),
                bounds=dict(quick='all 50 functions of one variable; the 676 products with both indices below 26; every point of [-1, 1]',
                            thorough='all 50 functions of one variable and all 2500 products; every point of [-1, 1]')),
    'C14': dict(parts={n: accessor(n) for n in ACC}, bounds='all pairs (i, k), 0 <= i, k < 30, symbolic; nine accessors; tolerance 1e-9 relative where the integral is not zero, 1e-8 absolute where it is',
                prepare=lambda: [tolerance(*d) for d in ACC.values()]),
}
