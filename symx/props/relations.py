"""C35-C41: relations a laminate or a plate must satisfy, whatever the formulas that produce it."""
from fractions import Fraction

from .. import bardell
from .laminate import arbitrary_Q, lam, magnitude, zs, any_stack
from .strength import loads, strength, symmetric3, columns
from .plate import plate, laminate, loads3, matrix_eq, rows, FREE, MIXED, OTHER, NAMES4


def strain_R(c, s):
    """Engineering strain in axes turned by the angle of cosine c and sine s."""
    return [[c * c, s * s, c * s], [s * s, c * c, -c * s], [-2 * c * s, 2 * c * s, c * c - s * s]]


def congruence(R, M):
    out = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            v = 0
            for k in range(3):
                for l in range(3):
                    v = v + R[k][i] * M[k][l] * R[l][j]
            out[i][j] = v
    return out


# ------------------------------------------------------------------ C35
def hermite(p0, s0, p1, s1):
    """Coefficients of functions 0..3 for the cubic of values p0, p1 and slopes s0, s1 (in xi) at -1 and +1."""
    return {0: p0, 1: s0 / bardell.value(1, -1, 1), 2: p1, 3: s1 / bardell.value(3, 1, 1)}


def monomial(k, half):
    """x^k with x = half * (xi + 1), as a combination of functions 0..3."""
    L = 2 * half
    return {0: hermite(1, 0, 1, 0), 1: hermite(0, half, L, half), 2: hermite(0, 0, L * L, 2 * L * half)}[k]


def fields():
    """(name, displacement, {(p, q): factor} of x^p y^q, strain or curvature vector): rigid motions and constant strains."""
    H = -1
    yield 'move u', 'u', {(0, 0): 1}, None
    yield 'move v', 'v', {(0, 0): 1}, None
    yield 'move w', 'w', {(0, 0): 1}, None
    yield 'tilt x', 'w', {(1, 0): 1}, None
    yield 'tilt y', 'w', {(0, 1): 1}, None
    yield 'ex', 'u', {(1, 0): 1}, 0
    yield 'ey', 'v', {(0, 1): 1}, 1
    yield 'gxy of u', 'u', {(0, 1): 1}, 2
    yield 'gxy of v', 'v', {(1, 0): 1}, 2
    yield 'kx', 'w', {(2, 0): H}, 3
    yield 'ky', 'w', {(0, 2): H}, 4
    yield 'kxy', 'w', {(1, 1): H}, 5


def zero(x):
    return isinstance(x, (int, float, Fraction)) and x == 0


def coefficients(idx, terms, a, b, f2):
    """The coefficient vector of sum factor x^p y^q over the retained functions, None if it is not in their span. The
    quadratics carry the factor 1/2 in f2 so that the curvature is 1."""
    out = [0] * len(idx)
    where = {tuple(t): i for i, t in enumerate(idx)}
    for (p, q), f in terms.items():
        X, Y = monomial(p, a / 2), monomial(q, b / 2)
        for i, x in X.items():
            for j, y in Y.items():
                if zero(x) or zero(y):
                    continue
                if (i, j) not in where:
                    return None
                out[where[i, j]] = out[where[i, j]] + (f2 if 2 in (p, q) else 1) * f * x * y
    return out


def states(h, pl, a, b, bending=False):
    nu, nv, nw = len(pl.su_idx), len(pl.sv_idx), len(pl.sw_idx)
    out = []
    for name, field, terms, comp in fields():
        if bending and field != 'w':
            continue
        idx = {'u': pl.su_idx, 'v': pl.sv_idx, 'w': pl.sw_idx}[field]
        c = coefficients(idx, terms, a, b, h.q(1, 2))
        if name == 'kxy' and c is not None:
            c = [x * h.q(1, 2) for x in c]          # gamma curvature is -2 w,xy
        if c is None:
            continue
        off = 0 if bending else {'u': 0, 'v': nu, 'w': nu + nv}[field]
        out.append((name, [(off + i, x) for i, x in enumerate(c) if not zero(x)], comp, terms))
    return out


def form(K, s, t):
    v = 0
    for i, x in s:
        for j, y in t:
            v = v + x * K[i][j] * y
    return v


def slope(terms):
    return (1 if terms == {(1, 0): 1} else 0, 1 if terms == {(0, 1): 1} else 0)


C35_CASES = [(4, 4, FREE), (5, 4, FREE), (4, 6, FREE), (4, 4, {'x0': ['TX'], 'xa': [], 'y0': ['TY'], 'yb': []}),
             (4, 4, {'x0': ['TX', 'TZ'], 'xa': [], 'y0': [], 'yb': []}), (4, 4, {'x0': [], 'xa': [], 'y0': ['TZ', 'TX'], 'yb': ['RY']}),
             (4, 4, {'x0': ['TX', 'TY'], 'xa': [], 'y0': ['RZ'], 'yb': ['RZ']})]


def c35_membrane(h):
    m, n, cons = h.choice('case', C35_CASES[:1] + C35_CASES[3:] + (C35_CASES[1:3] if h.thorough else []))
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    A, B, D = symmetric3(h, 'A', (1, 4)), symmetric3(h, 'B', (1, 4)), symmetric3(h, 'D', (1, 4))
    abd = [A[i] + B[i] for i in range(3)] + [B[i] + D[i] for i in range(3)]
    N = loads3(h)
    pl = plate(h, laminate(h, A, B, D), a, b, cons, N, m, n)
    K, KG = pl.calc_K_KG_ABD()
    K, KG = rows(K), rows(KG)
    S = states(h, pl, a, b)
    h.true('some states', len(S) >= 2, None if h.symbolic else (lambda: 1.0))
    compare(h, S, K, KG, abd, N, a, b, 3)


def compare(h, S, K, KG, abd, N, a, b, first):
    for i, (n1, s1, c1, t1) in enumerate(S):
        for n2, s2, c2, t2 in S[:i + 1]:
            want = 0 if c1 is None or c2 is None else abd[c1][c2] * a * b
            h.eq('energy of %s with %s' % (n1, n2), form(K, s1, s2), want, coef_tol=1e-9, abs_tol=1e-6, tol=1e-5,
                 scale=None if h.symbolic else 20 * (1 + 1 / a + 1 / b) ** 2 * (1 + a + b) ** 2, record=False)
    lin = [(n1, s1, slope(t1)) for n1, s1, c1, t1 in S if n1 in ('move w', 'tilt x', 'tilt y')]
    for i, (n1, s1, p) in enumerate(lin):
        for n2, s2, q in lin[:i + 1]:
            want = a * b * (N[0] * p[0] * q[0] + N[1] * p[1] * q[1] + N[2] * (p[0] * q[1] + p[1] * q[0]))
            h.eq('work of %s with %s' % (n1, n2), form(KG, s1, s2), want, coef_tol=1e-9, abs_tol=1e-6, tol=1e-5,
                 scale=None if h.symbolic else 20 * (1 + 1 / a + 1 / b) ** 2 * (1 + a + b) ** 2, record=False)
    h.record('K row', K[0])


def c35_bending(h):
    m, n, cons = h.choice('case', C35_CASES + ([(8, 5, FREE), (12, 4, FREE), (4, 12, FREE)] if h.thorough else []))
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    D = symmetric3(h, 'D', (1, 4))
    N = loads3(h)
    pl = plate(h, laminate(h, D=D), a, b, cons, N, m, n)
    K, KG = pl.calc_K_KG_D()
    abd = [[0] * 6 for _ in range(3)] + [[0] * 3 + D[i] for i in range(3)]
    compare(h, states(h, pl, a, b, True), rows(K), rows(KG), abd, N, a, b, 0)


# ------------------------------------------------------------------ C36
def c36_stack(h):
    """All plies turned by the same angle."""
    ms, th = any_stack(h)
    phi = h.angle('phi')
    L = lam(h, list(th), [m[0] for m in ms])
    R = lam(h, [x + phi for x in th], [m[0] for m in ms])
    T = strain_R(h.cosd(phi), h.sind(phi))
    for n, a, b, p in (('A', L.A, R.A, 0), ('B', L.B, R.B, 1), ('D', L.D, R.D, 2)):
        h.eq(n, b, congruence(T, rows(a)), scale=magnitude(h, [m[1] for m in ms], [m[2] for m in ms], p))


def turned(xi, c2, s2, c4, s4):
    return [xi[0] * c2 - xi[1] * s2, xi[0] * s2 + xi[1] * c2, xi[2] * c4 - xi[3] * s4, xi[2] * s4 + xi[3] * c4]


def c36_parameters(h):
    """Lamination parameters of a turned stack."""
    N = h.choice('plies', [1, 2, 3, 4, 7, 12] if not h.thorough else [1, 2, 3, 4, 5, 6, 7, 8, 12, 17, 24, 33])
    t = [h.pos('t%d' % k, (0.1, 0.5)) for k in range(2)]
    M = h.mod('composipy').OrthotropicMaterial
    ms = [M(100000, 10000, .25, 5000, x) for x in t]
    th = [h.angle('theta%d' % (k % 3)) for k in range(N)]
    w = [(k // 2) % 2 for k in range(N)]
    phi = h.angle('phi')
    L, R = lam(h, list(th), [ms[i] for i in w]), lam(h, [x + phi for x in th], [ms[i] for i in w])
    f = [h.cosd(2 * phi), h.sind(2 * phi), h.cosd(4 * phi), h.sind(4 * phi)]
    h.eq('xiA', R.xiA, turned(list(L.xiA), *f), scale=1)
    h.eq('xiD', R.xiD, turned(list(L.xiD), *f), scale=1)


def c36_given(h):
    """Laminates defined by lamination parameters and by the turned ones."""
    m, q, t = arbitrary_Q(h)
    xa, xd = [h.real('a%d' % i) for i in range(4)], [h.real('d%d' % i) for i in range(4)]
    T = h.pos('T', (0.5, 3))
    phi = h.angle('phi')
    f = [h.cosd(2 * phi), h.sind(2 * phi), h.cosd(4 * phi), h.sind(4 * phi)]
    L = lam(h, {'xiA': xa, 'xiD': xd, 'T': T}, m)
    R = lam(h, {'xiA': turned(xa, *f), 'xiD': turned(xd, *f), 'T': T}, m)
    S = strain_R(h.cosd(phi), h.sind(phi))
    s = None if h.symbolic else q[0]
    h.eq('A', R.A, congruence(S, rows(L.A)), scale=s and s * T)
    h.eq('D', R.D, congruence(S, rows(L.D)), scale=s and s * T ** 3)


# ------------------------------------------------------------------ C37
def c37_split(h):
    """One ply of a stack cut in two at any height."""
    N = h.choice('plies', [1, 2, 3] if not h.thorough else [1, 2, 3, 4, 5])
    j = h.choice('cut', list(range(N)))
    ms = [arbitrary_Q(h, '_%d' % k) for k in range(N)]
    th = [h.angle('theta%d' % k) for k in range(N)]
    lo = h.pos('lower', (0.05, 0.3))
    up = h.pos('upper', (0.05, 0.3))
    ms[j] = arbitrary_Q(h, '_%d' % j, lo + up)
    two = [arbitrary_Q(h, '_%d' % j, lo), arbitrary_Q(h, '_%d' % j, up)]
    L = lam(h, list(th), [m[0] for m in ms])
    R = lam(h, th[:j] + [th[j]] * 2 + th[j + 1:], [m[0] for m in ms[:j] + two + ms[j + 1:]])
    qs, ts = [m[1] for m in ms], [m[2] for m in ms]
    for n, x, y, p in (('A', L.A, R.A, 0), ('B', L.B, R.B, 1), ('D', L.D, R.D, 2)):
        h.eq(n, y, rows(x), scale=magnitude(h, qs, ts, p))
    h.eq('xiA', R.xiA, L.xiA, scale=1)
    h.eq('xiD', R.xiD, L.xiD, scale=1)
    z, w = list(L.z_position), list(R.z_position)
    h.eq('interfaces', w[:j + 1] + w[j + 2:], z)
    h.eq('cut', w[j + 1], z[j] + lo)


def c37_merge(h):
    """Equal neighbours and the single ply of their total thickness."""
    N = h.choice('plies', [2, 3, 4, 7, 10, 16, 17, 24, 32] if not h.thorough else list(range(2, 33)) + [48, 64, 100])
    t = h.pos('t', (0.05, 0.3))
    m, q, _ = arbitrary_Q(h, '', t)
    one = arbitrary_Q(h, '', N * t)[0]
    core = arbitrary_Q(h, '_c')
    x, y = h.angle('x'), h.angle('y')
    kind = h.choice('stack', ['alone', 'below', 'around'])
    if kind == 'alone':
        L, R = lam(h, [x], one), lam(h, [x] * N, m)
        ts = [N * t]
    elif kind == 'below':
        L, R = lam(h, [x, y], [one, core[0]]), lam(h, [x] * N + [y], [m] * N + [core[0]])
        ts = [N * t, core[2]]
    else:
        L, R = lam(h, [x, y, x], [one, core[0], one]), lam(h, [x] * N + [y] + [x] * N, [m] * N + [core[0]] + [m] * N)
        ts = [N * t, core[2], N * t]
    for n, u, v, p in (('A', L.A, R.A, 0), ('B', L.B, R.B, 1), ('D', L.D, R.D, 2)):
        h.eq(n, v, rows(u), scale=magnitude(h, [q, core[1]], ts, p))
    h.eq('xiA', R.xiA, L.xiA, scale=1)
    h.eq('xiD', R.xiD, L.xiD, scale=1)


def c37_strength(h):
    """The ply tables of the cut stack, at the surfaces both stacks have and at the cut."""
    N = h.choice('plies', [1, 2])
    j = h.choice('cut', list(range(N)))
    ms = [arbitrary_Q(h, '_%d' % k) for k in range(N)]
    th = [h.angle('theta%d' % k) for k in range(N)]
    lo, up = h.pos('lower', (0.05, 0.3)), h.pos('upper', (0.05, 0.3))
    ms[j] = arbitrary_Q(h, '_%d' % j, lo + up)
    two = [arbitrary_Q(h, '_%d' % j, lo), arbitrary_Q(h, '_%d' % j, up)]
    F = loads(h)
    L = strength(h, lam(h, list(th), [m[0] for m in ms]), F)
    R = strength(h, lam(h, th[:j] + [th[j]] * 2 + th[j + 1:], [m[0] for m in ms[:j] + two + ms[j + 1:]]), F)
    h.eq('epsilon0', list(R.epsilon0()), list(L.epsilon0()))
    keep = [r for r in range(2 * N + 2) if r not in (2 * j + 1, 2 * j + 2)]
    for name, cols in (('calculate_strain', ['z', 'epsilonx', 'epsilony', 'gammaxy', 'epsilon1', 'epsilon2', 'gamma12']),
                       ('calculate_stress', ['z', 'sigmax', 'sigmay', 'tauxy', 'sigma1', 'sigma2', 'tau12'])):
        x, y = getattr(L, name)(), getattr(R, name)()
        h.eq(name + ' rows', [len(x), len(y)], [2 * N, 2 * N + 2])
        X, Y = columns(x, cols), columns(y, cols)
        h.eq(name, [[c[r] for r in keep] for c in Y], X)
        f = lo / (lo + up)
        h.eq(name + ' at the cut', [[c[r] for c in Y] for r in (2 * j + 1, 2 * j + 2)], [[c[2 * j] * (1 - f) + c[2 * j + 1] * f for c in X]] * 2)


# ------------------------------------------------------------------ C38
def c38(h):
    """Half e.ABD.e is a sum of positive ply energies."""
    N = h.choice('plies', [1, 2, 3] if not h.thorough else [1, 2, 3, 4, 5])
    ms = [arbitrary_Q(h, '_%d' % k) for k in range(N)]
    for m in ms:
        q = m[1]
        h.assume(q[0] * q[2] - q[1] * q[1] > 0)
    th = [h.angle('theta%d' % k) for k in range(N)]
    L = lam(h, list(th), [m[0] for m in ms])
    abd = rows(L.ABD)
    e = [h.real(x) for x in ('ex', 'ey', 'gxy', 'kx', 'ky', 'kxy')]
    U = 0
    for i in range(6):
        for j in range(6):
            U = U + e[i] * abd[i][j] * e[j]
    z = zs([m[2] for m in ms])
    terms = []
    for k, (_, (q11, q12, q22, q66), t) in enumerate(ms):
        R = strain_R(h.cosd(th[k]), h.sind(th[k]))
        mid = [e[i] + (z[k] + z[k + 1]) / 2 * e[3 + i] for i in range(3)]
        for w, x in ((t, mid), (t * t * t / 12, e[3:])):
            y = [R[i][0] * x[0] + R[i][1] * x[1] + R[i][2] * x[2] for i in range(3)]
            terms += [(w * q11, y[0] + q12 / q11 * y[1]), (w * (q22 - q12 * q12 / q11), y[1]), (w * q66, y[2])]
    tot = 0
    for w, x in terms:
        tot = tot + w * x * x
    h.eq('energy = sum of the energies of the plies', U, tot)
    h.sos('strain energy', U, terms)


def c38_definite(h):
    """A, D and ABD of one ply: zero energy only without strain."""
    m, q, t = arbitrary_Q(h)
    h.assume(q[0] * q[2] - q[1] * q[1] > 0)
    th = h.angle('theta')
    L = lam(h, [th], m)
    which = h.choice('matrix', ['A', 'D'])
    M = rows(getattr(L, which))
    h.true('first minor', M[0][0] > 0)
    h.true('second minor', M[0][0] * M[1][1] - M[0][1] * M[1][0] > 0)
    d = (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
         + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))
    h.true('determinant', d > 0)


# ------------------------------------------------------------------ C39
def c39_isotropic(h):
    """Equally spaced plies: membrane stiffness without direction."""
    n = h.choice('directions', [3, 4, 6, 12])
    rep = h.choice('sets', [1, 2] if not h.thorough else [1, 2, 3, 4])
    order = h.choice('order', ['set by set', 'ply by ply'])
    m, q, t = arbitrary_Q(h)
    phi = h.angle('phi')
    one = [phi + k * (180 // n) for k in range(n)]
    th = one * rep if order == 'set by set' else [x for x in one for _ in range(rep)]
    L = lam(h, th, m)
    A = rows(L.A)
    T = n * rep * t
    q11, q12, q22, q66 = q
    u1, u4 = (3 * q11 + 3 * q22 + 2 * q12 + 4 * q66) / 8, (q11 + q22 + 6 * q12 - 4 * q66) / 8
    u5 = (u1 - u4) / 2
    h.eq('A', A, [[T * u1, T * u4, 0], [T * u4, T * u1, 0], [0, 0, T * u5]], scale=magnitude(h, [q], [T], 0))
    h.eq('A66 = (A11 - A12)/2', 2 * A[2][2], A[0][0] - A[0][1])
    h.eq('xiA', L.xiA, [0] * 4, scale=1)


# ------------------------------------------------------------------ C40
def c40_ply(h):
    """An isotropic ply at any angle, and the orthotropic material with the same constants."""
    C = h.mod('composipy')
    e, v, t = h.pos('e', (5e4, 2e5)), h.real('v', (-0.45, 0.45)), h.pos('t', (0.1, 1))
    h.assume(v >= -0.5)
    h.assume(v <= 0.5)
    g = e / (2 * (1 + v))
    iso, ort = C.IsotropicMaterial(e, v, g, t), C.OrthotropicMaterial(e, e, v, g, t)
    h.eq('Q_0', iso.Q_0, rows(ort.Q_0), scale=None if h.symbolic else e)
    N = h.choice('plies', [1, 2, 3, 4])
    th = [h.angle('theta%d' % k) for k in range(N)]
    L, R, O = lam(h, list(th), iso), lam(h, [0] * N, iso), lam(h, list(th), ort)
    for k in range(N):
        h.eq('Q_layup[%d]' % k, L.Q_layup[k], rows(iso.Q_0), scale=None if h.symbolic else e)
    T = N * t
    s = None if h.symbolic else e
    for n, p in (('A', 1), ('B', 2), ('D', 3)):
        h.eq(n + ' at any angle', getattr(L, n), rows(getattr(R, n)), scale=s and s * T ** p)
        h.eq(n + ' of the orthotropic one', getattr(O, n), rows(getattr(R, n)), scale=s and s * T ** p)
    D = rows(L.D)
    d = e * T * T * T / (12 * (1 - v * v))
    h.eq('plate stiffness', D, [[d, v * d, 0], [v * d, d, 0], [0, 0, (1 - v) * d / 2]], scale=s and s * T ** 3)
    h.eq('invariants', list(ort.Invariants()), [e / (1 - v * v), 0, 0, v * e / (1 - v * v), g], scale=s)


# ------------------------------------------------------------------ C41
C41_CASES = [((1, 1), (2, 3)), ((2, 2), (3, 2)), ((2, 2), (2, 3)), ((3, 2), (3, 4)), ((1, 3), (4, 3)), ((4, 1), (5, 2))]


def c41_nested(h):
    """The matrices of a model with fewer terms are blocks of those of one with more."""
    (m, n), (M, N) = h.choice('terms', C41_CASES + ([((4, 4), (5, 6)), ((6, 2), (9, 3)), ((1, 12), (2, 20))] if h.thorough else []))
    cons = h.choice('edges', ['PINNED', 'CLAMPED', MIXED, OTHER, NAMES4, FREE])
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    D = symmetric3(h, 'D', (1, 4))
    F = loads3(h)
    P, Q = [plate(h, laminate(h, D=D), a, b, cons, F, *mn) for mn in ((m, n), (M, N))]
    K1, G1 = P.calc_K_KG_D()
    K2, G2 = Q.calc_K_KG_D()
    big = {tuple(t): i for i, t in enumerate(Q.sw_idx)}
    small = [tuple(t) for t in P.sw_idx]
    h.eq('functions of the smaller model', [t in big for t in small], [True] * len(small))
    pos = [big[t] for t in small]
    K2, G2 = rows(K2), rows(G2)
    matrix_eq(h, 'K', [[K2[i][j] for j in pos] for i in pos], K1)
    matrix_eq(h, 'KG', [[G2[i][j] for j in pos] for i in pos], G1)


def c41_bending(h):
    """The deflection block of the ABD model is the bending model."""
    m, n = h.choice('terms', [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2)] + ([(4, 4), (8, 1), (3, 5)] if h.thorough else []))
    cons = h.choice('edges', ['PINNED', 'CLAMPED', MIXED, OTHER, NAMES4, FREE])
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    A, B, D = symmetric3(h, 'A', (1, 4)), symmetric3(h, 'B', (1, 4)), symmetric3(h, 'D', (1, 4))
    if h.choice('coupling', [0, 1]) == 0:
        B = [[0] * 3] * 3
    F = loads3(h)
    P = plate(h, laminate(h, A, B, D), a, b, cons, F, m, n)
    first = h.choice('first', ['ABD', 'D'])
    if first == 'D':
        K1, G1 = P.calc_K_KG_D()
    K, G = P.calc_K_KG_ABD()
    if first == 'ABD':
        K1, G1 = P.calc_K_KG_D()
    k = m * n
    K, G = rows(K), rows(G)
    matrix_eq(h, 'K', [r[2 * k:] for r in K[2 * k:]], K1)
    matrix_eq(h, 'KG', [r[2 * k:] for r in G[2 * k:]], G1)
    if isinstance(B[0][0], int):
        matrix_eq(h, 'no coupling', [r[2 * k:] for r in K[:2 * k]], [[0] * k] * (2 * k))


PROPS = {
    'C35': dict(parts=dict(membrane=c35_membrane, bending=c35_bending),
                bounds=dict(quick='all a, b, A, B, D, loads; every pair of the 12 rigid and constant-strain states the edge conditions allow; 5 sets of edge conditions; (m, n) = (4, 4), bending also (5, 4), (4, 6)',
                            thorough='also (m, n) = (5, 4), (4, 6) with membrane, (8, 5), (12, 4), (4, 12) in bending')),
    'C36': dict(parts=dict(stack=c36_stack, parameters=c36_parameters, given=c36_given),
                bounds=dict(quick='all angles (plies and turn), Q_0, thicknesses; N <= 4 different plies, up to 12 of two materials; all lamination parameters',
                            thorough='N <= 6 different plies, up to 33 of two materials')),
    'C37': dict(parts=dict(split=c37_split, merge=c37_merge, strength=c37_strength),
                bounds=dict(quick='a cut at any height in any ply of up to 3 different plies (strength: 2); up to 32 equal plies merged, alone or beside another ply',
                            thorough='cuts in up to 5 plies; up to 100 plies merged')),
    'C38': dict(parts=dict(energy=c38, definite=c38_definite),
                bounds=dict(quick='every strain and curvature, angle, thickness and positive definite Q_0; N <= 3 different plies',
                            thorough='N <= 5 different plies')),
    'C39': dict(parts=dict(isotropic=c39_isotropic),
                bounds=dict(quick='every first angle, material, thickness; 3, 4, 6 and 12 directions, one or two sets of plies', thorough='up to four sets')),
    'C40': dict(parts=dict(ply=c40_ply), bounds='all e, v, thickness and angles; N <= 4 plies'),
    'C41': dict(parts=dict(nested=c41_nested, bending=c41_bending),
                bounds=dict(quick='all a, b, A, B, D, loads; 6 sets of edge conditions; models up to (5, 2), (3, 4), (4, 3)', thorough='models up to (5, 6), (9, 3), (2, 20)')),
}
