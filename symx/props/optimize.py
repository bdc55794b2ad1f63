"""C21-C24: the optimisation problems."""
from .laminate import placeholder, lam, zs
from .plate import MIXED, NAMES4

U = 'composipy.optimize.utils'
INF = float('inf')


def absolute(x):
    return -x if x < 0 else x


# ------------------------------------------------------------------ C21
def c21_normalise(h):
    F = h.mod(U)
    N = [h.real(n, (-5, 5)) for n in ('Nxx', 'Nyy', 'Nxy')]
    some = False
    for x in N:
        some = (x != 0) | some
    h.assume(some)
    out = F.normalize_critical_load(*N)
    h.eq('four values', len(out), 4, record=False)
    n, big = list(out[:3]), out[3]
    h.eq('normalised * largest = given', [x * big for x in n], N)
    h.eq('largest', [big], [max([absolute(x) for x in N])])
    inside, hit = True, False
    for x in n:
        inside = (x <= 1) & (x >= -1) & inside
        hit = (x == 1) | (x == -1) | hit
    h.true('within [-1, 1]', inside, None if h.symbolic else (lambda: max(abs(x) for x in n) - 1 - 1e-9))
    h.true('largest absolute value is 1', hit, None if h.symbolic else (lambda: abs(max(abs(x) for x in n) - 1) - 1e-9))


def c21_whole(h):
    """Loads of type int."""
    F = h.mod(U)
    N = list(h.choice('loads', [(-4, 2, 1), (0, -3, 0), (1, -1, 7), (-2, -5, -3), (1, 0, 0), (0, 0, -6), (-1000, 999, 1)]))
    out = F.normalize_critical_load(*N)
    big = max(abs(x) for x in N)
    h.eq('normalised', list(out), [h.q(x, big) for x in N] + [big])
    k = h.choice('real', [0, 1, 2])
    M = list(N)
    M[k] = h.real('N', (-5, 5))
    h.assume(M[k] != 0)
    n1, n2, n3, b = F.normalize_critical_load(*M)
    h.eq('normalised * largest = given', [n1 * b, n2 * b, n3 * b], M)


def c21_partial(h):
    """Exact zeros among the loads."""
    F = h.mod(U)
    k = h.choice('given', [0, 1, 2])
    other = h.choice('other', [None, 0, 1, 2])
    N = [0, 0, 0]
    N[k] = h.real('N', (-5, 5))
    h.assume(N[k] != 0)
    if other is not None and other != k:
        N[other] = h.real('M', (-5, 5))
    n1, n2, n3, big = F.normalize_critical_load(*N)
    h.eq('normalised * largest = given', [n1 * big, n2 * big, n3 * big], N)
    h.eq('largest', [big], [max([absolute(x) for x in N])])


def c21_warn(h):
    F = h.mod(U)
    style = h.choice('style', ['any', 'no shear', 'int zeros'])
    N = [h.real(n, (-2, 2)) for n in ('Nxx', 'Nyy', 'Nxy')]
    if style == 'no shear':
        N[2] = 0
    if style == 'int zeros':
        N[h.choice('zero', [0, 1])] = 0
    bad = (N[0] >= 0) & (N[1] >= 0) & (N[2] == 0)
    for x in N:
        bad = (x > 1) | (x < -1) | bad
    w = h.warned(lambda: F.check_loads(*N))
    h.record('warned', w)
    h.true('warned exactly for bad load cases', w == bad)


def c21_entry(h):
    """The warning reaches callers of the optimisers."""
    M = h.mod('composipy.optimize')
    h.start_minimize()
    N = [h.real(n, (-2, 2)) for n in ('Nxx', 'Nyy', 'Nxy')]
    h.assume(N[0] != 0)
    bad = (N[0] >= 0) & (N[1] >= 0) & (N[2] == 0)
    for x in N:
        bad = (x > 1) | (x < -1) | bad
    if h.choice('entry', ['max', 'min']) == 'max':
        go = lambda: M.maximize_buckling_load(2, 1, 0.1, 10, 5, 0.25, 3, Nxx=N[0], Nyy=N[1], Nxy=N[2], m=2, n=2)
    else:
        go = lambda: M.minimize_panel_weight(2, 1, 10, 5, 0.25, 3, Nxx=N[0], Nyy=N[1], Nxy=N[2], m=2, n=2)
    w = h.warned(go)
    h.true('warned exactly for bad load cases', w == bad)


# ------------------------------------------------------------------ C22
def designs(h, xi1, xi3):
    return [[xi1, xi3], [h.pos('T', (0.1, 2)), xi1, xi3]]


def c22_edges(h):
    F = h.mod(U)
    x, y = h.real('xi1'), h.real('xi3')
    for kind in ('list', 'tuple', 'array'):
        for d in designs(h, x, y):
            d = tuple(d) if kind == 'tuple' else (h.arr(d) if kind == 'array' else d)
            lab = '%s of %d: ' % (kind, len(d))
            h.eq(lab + 'g1', F.penalty_g1(d), y + 2 * x + 1, scale=1)
            h.eq(lab + 'g2', F.penalty_g2(d), y - 2 * x + 1, scale=1)
            h.eq(lab + 'g', F.natural_constraint_g(d), y - 2 * x * x + 1, scale=1)


def c22_nested(h):
    """Inside the triangle implies inside the parabola."""
    F = h.mod(U)
    x, y = h.real('xi1'), h.real('xi3')
    h.assume((x >= -1) & (x <= 1) & (y >= -1) & (y <= 1))
    k = h.choice('variables', [0, 1])
    d = designs(h, x, y)[k]
    h.assume((F.penalty_g1(d) >= 0) & (F.penalty_g2(d) >= 0))
    h.true('parabola', F.natural_constraint_g(d) >= 0, None if h.symbolic else (lambda: -F.natural_constraint_g(d) - 1e-9))


def c22_laminates(h):
    """Every laminate satisfies the parabola."""
    F = h.mod(U)
    N = h.choice('plies', [1, 2, 3, 4, 5] if not h.thorough else [1, 2, 3, 4, 5, 6, 7])
    ts = [h.pos('t%d' % k, (0.1, 0.5)) for k in range(N)]
    th = [h.angle('theta%d' % k) for k in range(N)]
    xi = lam(h, list(th), [placeholder(h, t) for t in ts]).xiD
    z = zs(ts)
    T = z[-1] - z[0]
    w = [[(3 * t / T ** 3, z[k] + z[k + 1]), (t / T ** 3, t)] for k, t in enumerate(ts)]
    cert = [(2 * wi * wj, si * sj * (h.cosd(2 * th[i]) - h.cosd(2 * th[j])))
            for i in range(N) for j in range(i + 1, N) for wi, si in w[i] for wj, sj in w[j]]
    for d in designs(h, xi[0], xi[2]):
        h.sos('parabola, %d variables' % len(d), F.natural_constraint_g(d), cert)


def c22_orthogonal(h):
    """Laminates of 0, 90, +45 and -45 plies satisfy the triangle."""
    F = h.mod(U)
    N = h.choice('plies', [1, 2, 3, 4] if not h.thorough else [1, 2, 3, 4, 5])
    ts = [h.pos('t%d' % k, (0.1, 0.5)) for k in range(N)]
    ang = [h.choice('angle%d' % k, [0, 90, 45, -45]) for k in range(N)]
    xi = lam(h, list(ang), [placeholder(h, t) for t in ts]).xiD
    z = zs(ts)
    T = z[-1] - z[0]
    w = [[(3 * t / T ** 3, z[k] + z[k + 1]), (t / T ** 3, t)] for k, t in enumerate(ts)]
    for d in designs(h, xi[0], xi[2]):
        for name, g, full in (('g1', F.penalty_g1, 0), ('g2', F.penalty_g2, 90)):
            h.sos('%s, %d variables' % (name, len(d)), g(d), [(4 * wk, sq) for k in range(N) if ang[k] == full for wk, sq in w[k]])


# ------------------------------------------------------------------ C23, C24
def read_bounds(b, n):
    if hasattr(b, 'lb'):
        lo, hi = b.lb, b.ub
        lo = [lo] * n if not hasattr(lo, '__len__') else list(lo)
        hi = [hi] * n if not hasattr(hi, '__len__') else list(hi)
        return lo, hi
    b = [list(p) for p in b]
    return [-INF if p[0] is None else p[0] for p in b], [INF if p[1] is None else p[1] for p in b]


def feasible(h, cons, x):
    """Truth of the constraint list at a design."""
    if cons is None:
        cons = ()
    if not isinstance(cons, (list, tuple)):
        cons = [cons]
    r = True
    for c in cons:
        if isinstance(c, dict):
            v = c['fun'](x, *c.get('args', ()))
            lo, hi = 0, (0 if c['type'] == 'eq' else INF)
        elif hasattr(c, 'fun'):
            v, lo, hi = c.fun(x), c.lb, c.ub
        else:
            A = h.np.array(c.A)
            v, lo, hi = A @ h.np.array(x), getattr(c, 'lb', -INF), getattr(c, 'ub', INF)
        vs = list(v) if hasattr(v, '__len__') else [v]
        for i, y in enumerate(vs):
            l = lo[i] if hasattr(lo, '__len__') else lo
            u = hi[i] if hasattr(hi, '__len__') else hi
            r = (y >= l) & r if r is not True else y >= l
            if u != INF:
                r = (y <= u) & r
    return r


def inputs(h, T=True):
    v = dict(a=h.pos('a', (100, 900)), b=h.pos('b', (100, 900)))
    if T:
        v['T'] = h.pos('T', (0.5, 5))
    v.update(E1=h.pos('E1', (5e4, 2e5)), E2=h.pos('E2', (5e3, 2e4)), v12=h.real('v12', (0.1, 0.45)), G12=h.pos('G12', (2e3, 9e3)))
    h.assume(v['v12'] >= -0.5)
    h.assume(v['v12'] <= 0.5)
    h.assume(v['E1'] - v['v12'] * v['v12'] * v['E2'] > 0)
    return v


LOADCASES = {
    'x': lambda h: dict(Nxx=-h.pos('N', (0.2, 9))),
    'y': lambda h: dict(Nyy=-h.pos('N', (0.2, 9))),
    's': lambda h: dict(Nxy=h.pos('N', (0.2, 9))),
    'xy': lambda h: dict(Nxx=-3 * h.pos('N', (0.1, 3)), Nyy=-2 * h.pos('N', (0.1, 3)), Nxy=h.pos('N', (0.1, 3))),
    'yx': lambda h: dict(Nxx=2 * h.pos('N', (0.1, 3)), Nyy=-5 * h.pos('N', (0.1, 3)), Nxy=-3 * h.pos('N', (0.1, 3))),
    'sy': lambda h: dict(Nyy=-h.pos('N', (0.1, 3)), Nxy=-4 * h.pos('N', (0.1, 3))),
    't': lambda h: dict(Nxx=h.pos('N', (0.1, 3)), Nyy=-h.pos('N', (0.1, 3)), Nxy=-h.pos('N', (0.1, 3))),
    'ns': lambda h: dict(Nxy=-h.pos('N', (0.2, 9))),
    'nsx': lambda h: dict(Nxx=-2 * h.pos('N', (0.1, 3)), Nxy=-3 * h.pos('N', (0.1, 3))),
    'tx': lambda h: dict(Nxx=h.pos('N', (0.2, 9)), Nyy=h.pos('N', (0.2, 9)) / 2),
    'whole': lambda h: dict(Nxx=-3, Nyy=2, Nxy=1),
    'any': lambda h: any_loads(h),
}


def any_loads(h):
    """Any loads of three different sizes that can buckle the panel (equal sizes are among the fixed ratios)."""
    N = [h.real(n, (-5, 5)) for n in ('Nxx', 'Nyy', 'Nxy')]
    h.assume((N[0] < 0) | (N[1] < 0) | (N[2] != 0))
    for i in range(3):
        for j in range(i):
            h.assume((N[i] != N[j]) & (N[i] != -N[j]))
    return dict(Nxx=N[0], Nyy=N[1], Nxy=N[2])


def normalised(h, case):
    """The same loads over the largest absolute component, and that component."""
    if case == 'any':
        N = [h.real(n, (-5, 5)) for n in ('Nxx', 'Nyy', 'Nxy')]
        big = max([absolute(x) for x in N])
        return [x / big for x in N], big
    if case == 'whole':
        return [-1, h.q(2, 3), h.q(1, 3)], 3
    n = h.pos('N', (0.2, 9))
    k = {'x': (-1, 0, 0, 1), 'y': (0, -1, 0, 1), 's': (0, 0, 1, 1), 'xy': (-3, -2, 1, 3), 'yx': (2, -5, -3, 5), 'sy': (0, -1, -4, 4), 't': (1, -1, -1, 1), 'ns': (0, 0, -1, 1), 'nsx': (-2, 0, -3, 3)}[case]
    return [h.q(k[i], k[3]) for i in range(3)], k[3] * n


def critical(h, v, T, x, y, N, m, n, cons):
    """Critical factor of the panel, from the plate API."""
    C = h.mod('composipy')
    L = C.LaminateProperty({'xiD': [x, 0, y, 0], 'T': T}, C.OrthotropicMaterial(v['E1'], v['E2'], v['v12'], v['G12'], 0.1))
    P = C.PlateStructure(L, v['a'], v['b'], constraints=cons, Nxx=N[0], Nyy=N[1], Nxy=N[2], m=m, n=n)
    return P.buckling_analysis()[0][0]


PANELS = [('x', 1, 3, 'PINNED'), ('xy', 2, 2, 'PINNED'), ('yx', 3, 1, 'CLAMPED'), ('s', 2, 2, MIXED), ('y', 1, 3, NAMES4), ('sy', 3, 1, 'PINNED'), ('any', 1, 3, 'PINNED'), ('t', 1, 3, 'PINNED'), ('ns', 2, 2, MIXED), ('nsx', 2, 2, NAMES4), ('whole', 1, 3, 'CLAMPED')]
TENSION = ('tx', 1, 3, 'PINNED')


def ask(h, f, **k):
    """Call an optimiser with the stub; the single problem it poses."""
    log = h.start_minimize()
    import contextlib
    import io
    import warnings
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        res = f(**k)
    h.eq('one problem posed', len(log), 1, record=False)
    h.true('its result is returned', res is log[0]['result'])
    return log[0]


def fun(call):
    return lambda x: call['fun'](x, *(call['args'] if isinstance(call['args'], tuple) else (call['args'],)))


def triangle(x, y, tol=0):
    return (y + 2 * x + 1 >= -tol) & (y - 2 * x + 1 >= -tol)


def box(x):
    return (x >= -1) & (x <= 1)


def c23(h):
    case, m, n, cons = h.choice('panel', PANELS)
    v = inputs(h)
    N = LOADCASES[case](h)
    pen = h.choice('penalty', ['default', True, False])
    kw = {} if pen == 'default' else dict(penalty=pen)
    if h.choice('extra', [False, True]):
        kw.update(options=dict(maxiter=7), tol=0.125)
    if cons != 'PINNED':
        kw['panel_constraint'] = cons
    call = ask(h, h.mod('composipy.optimize').maximize_buckling_load, m=m, n=n, **v, **N, **kw)
    if 'tol' in kw:
        h.true('options and tol passed on', call['options'] == kw['options'] and call['tol'] == kw['tol'])
    lo, hi = read_bounds(call['bounds'], 2)
    h.eq('bounds', [lo, hi], [[-1, -1], [1, 1]])
    h.eq('start', len(call['x0']), 2, record=False)
    x, y = h.real('xi1', (-0.5, 0.5)), h.real('xi3', (0, 1))
    h.assume(box(x) & box(y))
    ok = feasible(h, call['constraints'], [x, y])
    if pen is False:
        h.true('parabola is feasible', inside_implies(y - 2 * x * x + 1 >= 0, ok))
        h.true('feasible is parabola', inside_implies(ok, y - 2 * x * x + 1 >= -0.001))
    else:
        h.true('triangle is feasible', inside_implies(triangle(x, y), ok))
        h.true('feasible is triangle', inside_implies(ok, triangle(x, y, 0.001)))


def neg(x):
    return x == False


def inside_implies(p, q):
    return (p == False) | q


def c23_objective(h):
    case, m, n, cons = h.choice('panel', PANELS)
    v = inputs(h)
    N = LOADCASES[case](h)
    pen = h.choice('penalty', [True, False])
    call = ask(h, h.mod('composipy.optimize').maximize_buckling_load, m=m, n=n, panel_constraint=cons, penalty=pen, **v, **N)
    x, y = h.real('xi1', (-0.5, 0.5)), h.real('xi3', (0, 1))
    h.assume(box(x) & box(y))
    h.assume(triangle(x, y))
    if h.choice('after', ['nothing', 'another design']) == 'another design':
        # as in a difference quotient
        with h.one_order():
            fun(call)([x + h.real('dx', (0, .1)), y + h.real('dy', (0, .1))])
    got = fun(call)([x, y])
    h.eq('objective', got, -critical(h, v, v['T'], x, y, normalised(h, case)[0], m, n, cons))


def c23_failure(h):
    case, m, n, cons = h.choice('panel', PANELS)
    v = inputs(h)
    N = LOADCASES[case](h)
    pen = h.choice('penalty', [True, False])
    call = ask(h, h.mod('composipy.optimize').maximize_buckling_load, m=m, n=n, panel_constraint=cons, penalty=pen, **v, **N)
    x, y = h.real('xi1', (-0.5, 0.5)), h.real('xi3', (0, 1))
    with h.eig_failure() as failed:
        got = fun(call)([x, y])
    if failed:
        h.true('a design that cannot be analysed is worse than any that buckles at a positive factor', got >= 0)
    else:
        h.eq('objective', got, -critical(h, v, v['T'], x, y, normalised(h, case)[0], m, n, cons))


NUMBERS = dict(T=0.5, E1=8.0, E2=2.0, v12=0.25, G12=1.0)
LONG = [('x', 11, 1, 'PINNED', 40.0, 1.5), ('y', 1, 13, 'CLAMPED', 1.5, 40.0), ('x', 9, 2, MIXED, 90.0, 1.5)]  # slender: all terms count


def c23_long(h):
    """Many terms in one direction; panel and design given in numbers."""
    case, m, n, cons, a, b = h.choice('panel', LONG)
    v = dict(NUMBERS, a=a, b=b)
    N = LOADCASES[case](h)
    call = ask(h, h.mod('composipy.optimize').maximize_buckling_load, m=m, n=n, panel_constraint=cons, **v, **N)
    got = fun(call)([0.25, -0.125])
    h.eq('objective', got, -critical(h, v, v['T'], 0.25, -0.125, normalised(h, case)[0], m, n, cons))


def c24_long(h):
    case, m, n, cons, a, b = h.choice('panel', LONG)
    v = dict(NUMBERS, a=a, b=b)
    N = LOADCASES[case](h)
    v.pop('T')
    call = ask(h, h.mod('composipy.optimize').minimize_panel_weight, m=m, n=n, panel_constraint=cons, **v, **N)
    norm, big = normalised(h, case)
    cr = critical(h, v, 0.5, 0.25, -0.125, norm, m, n, cons)
    ok = feasible(h, call['constraints'], [0.5, 0.25, -0.125])
    carries = cr >= big
    near = None if h.symbolic else (lambda: abs(cr - big) / big - 1e-6)
    h.true('feasible exactly when the panel carries the loads', inside_implies(carries, ok) & inside_implies(ok, carries), near)


def c24(h):
    case, m, n, cons = h.choice('panel', PANELS)
    v = inputs(h, T=False)
    N = LOADCASES[case](h)
    kw = {}
    if cons != 'PINNED':
        kw['panel_constraint'] = cons
    if h.choice('extra', [False, True]):
        kw.update(options=dict(maxiter=7), tol=0.125, x0=[0.5, 0.25, 0.125])
    call = ask(h, h.mod('composipy.optimize').minimize_panel_weight, m=m, n=n, **v, **N, **kw)
    if 'tol' in kw:
        h.true('options, tol and start passed on', call['options'] == kw['options'] and call['tol'] == kw['tol'] and
               [float(t) for t in call['x0']] == kw['x0'])
    lo, hi = read_bounds(call['bounds'], 3)
    h.eq('bounds on the parameters', [lo[1:], hi[1:]], [[-1, -1], [1, 1]])
    h.true('thickness is positive', lo[0] > 0)
    h.true('thickness is not limited in practice', lo[0] <= 0.01 and hi[0] >= 1000)
    x, y = h.real('xi1', (-0.5, 0.5)), h.real('xi3', (0, 1))
    x2, y2 = h.real('xi1b', (-0.5, 0.5)), h.real('xi3b', (0, 1))
    T, d = h.pos('T', (0.5, 5)), h.pos('dT', (0.01, 2))
    f = fun(call)
    h.true('objective increases with thickness', f([T, x, y]) < f([T + d, x2, y2]))
    h.eq('objective depends on thickness only', f([T, x, y]), f([T, x2, y2]))


def c24_constraint(h):
    case, m, n, cons = h.choice('panel', PANELS)
    v = inputs(h, T=False)
    N = LOADCASES[case](h)
    call = ask(h, h.mod('composipy.optimize').minimize_panel_weight, m=m, n=n, panel_constraint=cons, **v, **N)
    x, y = h.real('xi1', (-0.4, 0.4)), h.real('xi3', (-0.2, 1))
    T = h.pos('T', (0.1, 3))
    h.assume(T >= 0.001)
    h.assume(box(x) & box(y))
    ok = feasible(h, call['constraints'], [T, x, y])
    norm, big = normalised(h, case)
    cr = critical(h, v, T, x, y, norm, m, n, cons)
    carries = cr >= big
    near = None if h.symbolic else (lambda: abs(cr - big) / big - 1e-6)
    h.true('a panel that carries the loads inside the triangle is feasible', inside_implies(triangle(x, y) & carries, ok), near)
    h.true('a feasible panel carries the loads', inside_implies(ok, carries), near)
    h.true('a feasible panel is inside the triangle', inside_implies(ok, triangle(x, y, 0.001)))


def c24_failure(h):
    case, m, n, cons = h.choice('panel', PANELS)
    v = inputs(h, T=False)
    N = LOADCASES[case](h)
    call = ask(h, h.mod('composipy.optimize').minimize_panel_weight, m=m, n=n, panel_constraint=cons, **v, **N)
    x, y = h.real('xi1', (-0.4, 0.4)), h.real('xi3', (-0.2, 1))
    T = h.pos('T', (0.1, 3))
    h.assume(T >= 0.001)
    with h.eig_failure() as failed:
        ok = feasible(h, call['constraints'], [T, x, y])
    if failed:
        h.true('a design that cannot be analysed does not carry the loads', neg(ok))


# ------------------------------------------------------------------ C34
def grid_of(h, calls):
    """{(xi1, xi3): value} of the contours drawn."""
    pts = {}
    for _, a, k in calls:
        X, Y, Z = a[:3]
        Z = [list(r) for r in Z]
        two = hasattr(list(X)[0], '__len__')
        X, Y = ([list(r) for r in X], [list(r) for r in Y]) if two else (list(X), list(Y))
        for r in range(len(Z)):
            for c in range(len(Z[0])):
                x, y = (X[r][c], Y[r][c]) if two else (X[c], Y[r])
                pts[round(float(x), 9), round(float(y), 9)] = Z[r][c]
    return pts


def flat_list(x):
    return [t for r in x for t in flat_list(r)] if hasattr(x, '__len__') else [x]


def shown(z):
    return not (type(z).__name__ == 'MaskedConstant' or z is None or isinstance(z, float) and z != z or
                type(z).__module__ == 'numpy' and z != z)


def c34_case(h, panel, pts, pen):
    case, m, n, cons = panel
    v = inputs(h)
    N = LOADCASES[case](h)
    best = [h.real('best1', (-0.4, 0.4)), h.real('best3', (0, 1))]
    log = h.start_minimize(x=best)
    h.start_plots()
    kw = {} if pen == 'default' else dict(penalty=pen)
    if pts is not None:
        kw['points_to_plot'] = pts
    import contextlib
    import io
    import warnings
    f = h.mod('composipy.optimize').maximize_buckling_load
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        with contextlib.nullcontext() if pts <= 3 and (pen == "default" and panel is PANELS[0] or h.thorough and panel in PANELS[:2]) else h.one_order():
            res = f(m=m, n=n, panel_constraint=cons, plot=True, **v, **N, **kw)
    h.eq('one problem posed', len(log), 1, record=False)
    h.true('its result is returned', res is log[0]['result'])
    calls = h.plots()
    got = grid_of(h, [c for c in calls if c[0] in ('contour', 'contourf')])
    axis = [round(-1 + 2 * i / (pts - 1), 9) for i in range(pts)]
    h.eq('grid', [list(t) for t in sorted(got)], [[x, y] for x in axis for y in axis], record=False)
    load = [N.get(k, 0) for k in ('Nxx', 'Nyy', 'Nxy')]
    a, b = [], []
    for i in range(pts):
        for k in range(pts):
            x, y = -1 + h.q(2 * i, pts - 1), -1 + h.q(2 * k, pts - 1)
            z = got.get((axis[i], axis[k]))
            fx, fy = axis[i], axis[k]
            g = fy - 2 * fx * fx + 1 if pen is False else fy - 2 * abs(fx) + 1
            if g < -0.001:
                h.true('nothing shown outside the region', not shown(z))
            elif g > 1e-6:
                if not shown(z):
                    h.fail('no value at a feasible point')
                    continue
            if g >= -0.001 and shown(z):
                a.append(z)
                b.append(critical(h, v, v['T'], x, y, load, m, n, cons))
    h.eq('factors', a, b)
    xs, marks = [], []
    for nm, args, k in calls:
        if nm not in ('plot', 'scatter'):
            continue
        ax, ay = flat_list(args[0]), flat_list(args[1])
        if len(ax) == 1:
            marks.append([ax[0], ay[0]])
            continue
        for x, y in zip(ax, ay):
            xs.append(round(float(x), 9))
            h.eq('boundary line', [y], [2 * x * x - 1 if pen is False else 2 * absolute(x) - 1], scale=1, record=False)
    h.eq('extent of the boundary', sorted(set(xs))[:1] + sorted(set(xs))[-1:], [-1, 1], record=False)
    h.true('the corner of the triangle is drawn', pen is False or 0.0 in xs)
    h.eq('marker', marks, [best])


def c34(h):
    pen = h.choice('penalty', ['default', True, False])
    c34_case(h, h.choice('panel', PANELS if h.thorough else PANELS[:4]), 3, pen)


def c34_tension(h):
    pen = h.choice('penalty', ['default', False])
    c34_case(h, TENSION, 3, pen)


def c34_fine(h):
    """Fine grids (thorough: the default among them) of one panel given in numbers: which designs are shown and where."""
    pts, pen = h.choice('points', [(22, True), (21, False)] if not h.thorough else [(22, True), (None, False)])
    v = dict(a=2.0, b=1.0, T=0.5, E1=8.0, E2=2.0, v12=0.25, G12=1.0)
    best = [h.real('best1', (-0.4, 0.4)), h.real('best3', (0, 1))]
    log = h.start_minimize(x=best)
    h.start_plots()
    kw = {} if pts is None else dict(points_to_plot=pts)
    pts = pts or 30
    import contextlib
    import io
    import warnings
    f = h.mod('composipy.optimize').maximize_buckling_load
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), h.one_order():
        warnings.simplefilter('ignore')
        f(m=1, n=3, Nxx=-1, plot=True, penalty=pen, **v, **kw)
    got = grid_of(h, [c for c in h.plots() if c[0] in ('contour', 'contourf')])
    axis = [round(-1 + 2 * i / (pts - 1), 9) for i in range(pts)]
    h.eq('grid', [list(t) for t in sorted(got)], [[x, y] for x in axis for y in axis], record=False)
    wrong = []
    for x in axis:
        for y in axis:
            g = y - 2 * x * x + 1 if pen is False else y - 2 * abs(x) + 1
            if abs(g) > 0.001 and shown(got.get((x, y))) != (g > 0):
                wrong.append((x, y))
    h.eq('designs shown wrongly', wrong, [], record=False)
    h.true('the result is marked', len(log) == 1)


def c34_grid(h):
    pen = h.choice('penalty', [True, False])
    pts = h.choice('points', [2, 4, 5] if not h.thorough else [2, 4, 5, 6, 7, 9])
    c34_case(h, PANELS[4 if pen else 0], pts, pen)


PROPS = {
    'C34': dict(parts=dict(panels=c34, grid=c34_grid, fine=c34_fine, tension=c34_tension),
                bounds=dict(quick='all a, b, T, E1, E2, v12, G12, load magnitudes, all results of the optimiser; 4 panels in compression and one in tension at 3 x 3 points; 2, 4 and 5 points per direction on one panel each; 21 and 22 points on one panel given in numbers (which designs are shown); outside the first panel and above 3 points, only the order of factors met first',
                            thorough='6 panels; up to 9 points per direction'),
                assumptions=['the drawing functions are recorders', 'the eigensolver is represented by its contract']),
    'C21': dict(parts=dict(normalise=c21_normalise, partial=c21_partial, whole=c21_whole, warn=c21_warn, entry=c21_entry), bounds='all real load cases with at least one non-zero component; 7 load cases of type int'),
    'C22': dict(parts=dict(edges=c22_edges, nested=c22_nested, laminates=c22_laminates, orthogonal=c22_orthogonal),
                bounds=dict(quick='all (xi1, xi3), T; laminates of up to 5 plies of any angle and thickness (parabola), up to 4 plies of 0/90/+-45 of any thickness (triangle)',
                            thorough='laminates of up to 7 plies (parabola), 5 plies (triangle)'),
                assumptions=['the optimiser-side slack of 1e-4 on each constraint is part of C23 and C24']),
    'C23': dict(parts=dict(problem=c23, objective=c23_objective, long=c23_long, failure=c23_failure),
                bounds='all a, b, T, E1, E2, v12, G12, loads of any three different sizes, load magnitudes in 9 load ratios and one of type int, all design points (alone or after another design); m*n <= 4, and 11 x 1, 1 x 13, 9 x 2 terms of a panel given in numbers; 4 sets of edge conditions; constraints to within 1e-3',
                assumptions=['scipy.optimize.minimize is a recorder: the claim is about the problem it is given', 'the eigensolver is represented by its contract; two problems with equal matrices have the same solution']),
    'C24': dict(parts=dict(problem=c24, constraint=c24_constraint, long=c24_long, failure=c24_failure),
                bounds='all a, b, E1, E2, v12, G12, loads of any three different sizes, load magnitudes in 9 load ratios and one of type int, all designs (T, xi1, xi3); m*n <= 4, and 11 x 1, 1 x 13, 9 x 2 terms of a panel given in numbers; 4 sets of edge conditions; triangle to within 1e-3',
                assumptions=['scipy.optimize.minimize is a recorder', 'the eigensolver is represented by its contract']),
}
