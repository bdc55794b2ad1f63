"""C09-C12: LaminateStrength."""
from .laminate import arbitrary_Q, lam, zs, qbar

LOADS = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def loads(h, which=range(6)):
    return [h.real(LOADS[i], (-100, 100)) if i in which else 0 for i in range(6)]


def strength(h, prop, F):
    return h.mod('composipy').LaminateStrength(prop, **dict(zip(LOADS, F)))


def stack(h, N, shared_angles=None):
    ms = [arbitrary_Q(h, '_%d' % k) for k in range(N)]
    th = [h.angle('theta%d' % (k % (shared_angles or N))) for k in range(N)]
    return lam(h, list(th), [m[0] for m in ms]), ms, th


def with_ABD(h, prop, A, B, D):
    """A laminate whose stiffness matrices are the given ones."""
    C = type(prop)

    class Given(C):
        @property
        def A(self):
            return h.arr(A)

        @property
        def B(self):
            return h.arr(B)

        @property
        def D(self):
            return h.arr(D)

        @property
        def ABD(self):
            return h.arr([list(A[i]) + list(B[i]) for i in range(3)] + [list(B[i]) + list(D[i]) for i in range(3)])
    return Given(prop.stacking, prop.plies)


def symmetric3(h, name, hint):
    v = {}
    for i, (p, q) in enumerate(((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))):
        lo, hi = hint if p == q else (-hint[0] / 4, hint[0] / 4)
        v[p, q] = v[q, p] = h.real('%s%d%d' % (name, p + 1, q + 1), (lo, hi))
    return [[v[i, j] for j in range(3)] for i in range(3)]


# ------------------------------------------------------------------ C09
def balance(h, S, abd, F, label='ABD e = N'):
    e = S.epsilon0()
    h.eq('six values', len(e), 6)
    got = []
    for i in range(6):
        s = 0
        for j in range(6):
            s = s + abd[i][j] * e[j]
        got.append(s)
    h.eq(label, got, F, scale=None if h.symbolic else 100)
    return e


def c09_any(h):
    """Any symmetric A, B, D with ABD invertible."""
    m, q, t = arbitrary_Q(h)
    A, B, D = symmetric3(h, 'A', (1000, 2000)), symmetric3(h, 'B', (100, 200)), symmetric3(h, 'D', (1000, 2000))
    P = with_ABD(h, lam(h, [0, 90], m), A, B, D)
    F = loads(h)
    abd = [A[i] + B[i] for i in range(3)] + [B[i] + D[i] for i in range(3)]
    S = strength(h, P, F)
    balance(h, S, abd, F)
    h.eq('loads kept', [S.Nxx, S.Nyy, S.Nxy, S.Mxx, S.Myy, S.Mxy], F)


def c09_laminate(h):
    N = h.choice('plies', [1, 2, 3, 4] if not h.thorough else [1, 2, 3, 4, 5, 6])
    L, ms, th = stack(h, N)
    F = loads(h)
    from .laminate import moments
    A, B, D = moments(h, [m[1] for m in ms], th, [m[2] for m in ms])
    abd = [A[i] + B[i] for i in range(3)] + [B[i] + D[i] for i in range(3)]
    balance(h, strength(h, L, F), abd, F)


def c09_positional(h):
    """Loads given by position, defaults for the rest."""
    m, q, t = arbitrary_Q(h)
    A, B, D = symmetric3(h, 'A', (1000, 2000)), symmetric3(h, 'B', (100, 200)), symmetric3(h, 'D', (1000, 2000))
    P = with_ABD(h, lam(h, [0, 90], m), A, B, D)
    k = h.choice('given', [1, 2, 3, 4, 5, 6])
    F = loads(h)
    S = h.mod('composipy').LaminateStrength(P, *F[:k])
    abd = [A[i] + B[i] for i in range(3)] + [B[i] + D[i] for i in range(3)]
    balance(h, S, abd, F[:k] + [0] * (6 - k))


def c09_changed(h):
    """Loads changed on an object that has been queried."""
    m, q, t = arbitrary_Q(h)
    A, B, D = symmetric3(h, 'A', (1000, 2000)), symmetric3(h, 'B', (100, 200)), symmetric3(h, 'D', (1000, 2000))
    P = with_ABD(h, lam(h, [0, 90], m), A, B, D)
    F, G = loads(h), [h.real('new' + n, (-100, 100)) for n in LOADS]
    S = strength(h, P, F)
    which = h.choice('changed', [(0,), (1,), (2,), (3,), (4,), (5,), (0, 1, 2), (0, 1, 2, 3, 4, 5)])
    q = h.choice('asked before', ['epsilon0', 'calculate_strain', 'calculate_stress'])
    getattr(S, q)()
    try:
        for i in which:
            setattr(S, LOADS[i], G[i])
            F[i] = G[i]
    except AttributeError:
        return h.true('loads are fixed at construction', True)
    abd = [A[i] + B[i] for i in range(3)] + [B[i] + D[i] for i in range(3)]
    e = balance(h, S, abd, F)
    if q != 'epsilon0':
        df = S.calculate_strain()
        z = zs([t, t])
        h.eq('tables follow', columns(df, ['epsilonx', 'epsilony', 'gammaxy']), [[e[i] + zz * e[3 + i] for zz in (z[0], z[1], z[1], z[2])] for i in range(3)])


def c09_whole(h):
    """Loads of type int."""
    m, q, t = arbitrary_Q(h)
    A, B, D = symmetric3(h, 'A', (1000, 2000)), symmetric3(h, 'B', (100, 200)), symmetric3(h, 'D', (1000, 2000))
    P = with_ABD(h, lam(h, [0, 90], m), A, B, D)
    F = list(h.choice('loads', [(1, 0, 0, 0, 0, 0), (-4, 3, 2, 1, -5, 7), (0, 0, 0, 0, 1, 0), (100, 0, 0, 0, 0, -1)]))
    abd = [A[i] + B[i] for i in range(3)] + [B[i] + D[i] for i in range(3)]
    balance(h, strength(h, P, F), abd, F)


# ------------------------------------------------------------------ C10
def lin3(M, v):
    out = []
    for i in range(3):
        s = 0
        for j in range(3):
            s = s + M[i][j] * v[j]
        out.append(s)
    return out


def columns(df, names):
    return [df[n].tolist() for n in names]


def c10(h):
    N = h.choice('plies', [1, 2, 3, 4, 5, -6, -11] if not h.thorough else [1, 2, 3, 4, 5, 6, 7, 8, -6, -7, -8, -9, -12, -16])
    if N > 0:
        L, ms, th = stack(h, N)
    else:
        N = -N
        two, an = [arbitrary_Q(h, '_%d' % k) for k in range(2)], [h.angle('theta%d' % k) for k in range(3)]
        ms, th = [two[(k // 2) % 2] for k in range(N)], [an[k % 3] for k in range(N)]
        L = lam(h, list(th), [m[0] for m in ms])
    if N > 2:
        # the mid-plane strains of thick stacks come from any ABD: that it is the right one is C04
        A, B, D = symmetric3(h, 'A', (1000, 2000)), symmetric3(h, 'B', (100, 200)), symmetric3(h, 'D', (1000, 2000))
        L = with_ABD(h, L, A, B, D)
    order = h.choice('order', ['strain', 'stress'])
    S = strength(h, L, loads(h))
    dfs = {}
    for w in (('strain', 'stress') if order == 'strain' else ('stress', 'strain')):
        dfs[w] = S.calculate_strain() if w == 'strain' else S.calculate_stress()
    e = S.epsilon0()
    z = zs([m[2] for m in ms])
    want = {k: [] for k in ('ply', 'position', 'angle', 'z', 'eps', 'eps1', 'sig', 'sig1', 'law')}
    for k in range(N):
        c, s = h.cosd(th[k]), h.sind(th[k])
        Te = [[c * c, s * s, c * s], [s * s, c * c, -c * s], [-2 * c * s, 2 * c * s, c * c - s * s]]
        T = [[c * c, s * s, 2 * c * s], [s * s, c * c, -2 * c * s], [-c * s, c * s, c * c - s * s]]
        Qb = qbar(h, ms[k][1], th[k])
        for side, zz in (('bot', z[k]), ('top', z[k + 1])):
            eps = [e[i] + zz * e[3 + i] for i in range(3)]
            sig = lin3(Qb, eps)
            want['ply'].append(k + 1)
            want['position'].append(side)
            want['angle'].append(th[k])
            want['z'].append(zz)
            want['eps'].append(eps)
            want['eps1'].append(lin3(Te, eps))
            want['sig'].append(sig)
            want['sig1'].append(lin3(T, sig))
    tr = lambda rows: [list(x) for x in zip(*rows)]
    for w, df in dfs.items():
        h.eq(w + ' rows', len(df), 2 * N)
        h.eq(w + ' ply', df['ply'].tolist(), want['ply'])
        h.eq(w + ' position', df['position'].tolist(), want['position'])
        h.eq(w + ' angle', df['angle'].tolist(), want['angle'])
        h.eq(w + ' z', df['z'].tolist(), want['z'])
    h.eq('laminate strains', columns(dfs['strain'], ['epsilonx', 'epsilony', 'gammaxy']), tr(want['eps']))
    h.eq('material strains', columns(dfs['strain'], ['epsilon1', 'epsilon2', 'gamma12']), tr(want['eps1']))
    h.eq('laminate stresses', columns(dfs['stress'], ['sigmax', 'sigmay', 'tauxy']), tr(want['sig']))
    h.eq('material stresses', columns(dfs['stress'], ['sigma1', 'sigma2', 'tau12']), tr(want['sig1']))
    law = []
    em = list(zip(*columns(dfs['strain'], ['epsilon1', 'epsilon2', 'gamma12'])))
    for r in range(2 * N):
        q11, q12, q22, q66 = ms[r // 2][1]
        law.append([q11 * em[r][0] + q12 * em[r][1], q12 * em[r][0] + q22 * em[r][1], q66 * em[r][2]])
    h.eq('stress = Q_0 strain', columns(dfs['stress'], ['sigma1', 'sigma2', 'tau12']), tr(law))


# ------------------------------------------------------------------ C11
def integrate(h, df, ts):
    z = zs(ts)
    N, M = [0] * 3, [0] * 3
    cols = columns(df, ['sigmax', 'sigmay', 'tauxy'])
    for k, t in enumerate(ts):
        for i in range(3):
            s0, s1 = cols[i][2 * k], cols[i][2 * k + 1]
            N[i] = N[i] + t * (s0 + s1) / 2
            M[i] = M[i] + t * (s0 * (2 * z[k] + z[k + 1]) + s1 * (z[k] + 2 * z[k + 1])) / 6
    return N + M


def c11(h):
    N = h.choice('plies', [1, 2, 3, 4] if not h.thorough else [1, 2, 3, 4, 5, 6])
    L, ms, th = stack(h, N)
    F = loads(h)
    df = strength(h, L, F).calculate_stress()
    h.eq('rows', len(df), 2 * N)
    h.eq('resultants', integrate(h, df, [m[2] for m in ms]), F, scale=None if h.symbolic else 100)


def c11_one(h):
    """More plies, of one material."""
    N = h.choice('plies', [3, 4, 6, 8, 9] if not h.thorough else [3, 4, 5, 6, 7, 8, 9, 12, 16, 20])
    m, q, t = arbitrary_Q(h)
    th = [h.angle('theta%d' % (k % 2)) for k in range(N)]
    F = loads(h)
    df = strength(h, lam(h, list(th), m), F).calculate_stress()
    h.eq('rows', len(df), 2 * N)
    h.eq('resultants', integrate(h, df, [t] * N), F, scale=None if h.symbolic else 100)


# ------------------------------------------------------------------ C12
MARGINS = ['margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s']
INF = float('inf')


def allow(h, tag):
    return [h.pos(n + tag, (1, 100)) for n in ('t1', 'c1', 't2', 'c2', 's')]


def check_margins(h, df, st, al, rows, flags=False):
    """al[r]: allowables (t1, c1, t2, c2, s) of row r; st: the stress table."""
    s1, s2, s12 = columns(st, ['sigma1', 'sigma2', 'tau12'])
    h.eq('rows', len(df), len(st))
    for col in ('ply', 'position', 'angle'):
        h.eq(col, df[col].tolist(), st[col].tolist())
    got = columns(df, MARGINS)
    crit = df['critical'].tolist()
    for r in rows:
        t1, c1, t2, c2, s = al[r]
        want = [t1 / s1[r] - 1 if s1[r] > 0 else INF, c1 / -s1[r] - 1 if s1[r] < 0 else INF,
                t2 / s2[r] - 1 if s2[r] > 0 else INF, c2 / -s2[r] - 1 if s2[r] < 0 else INF,
                s / s12[r] - 1 if s12[r] > 0 else (s / -s12[r] - 1 if s12[r] < 0 else INF)]
        g = [c[r] for c in got]
        for n, a, b in zip(MARGINS, g, want):
            h.eq('%s of row %d' % (n, r), a, b, coef_tol=None)
        if flags:
            allpos = inside = True
            for m in g:
                allpos = (m >= 0) & allpos
            for x, y in ((s1[r], t1), (-s1[r], c1), (s2[r], t2), (-s2[r], c2), (s12[r], s), (-s12[r], s)):
                inside = (x <= y) & inside
            h.true('non-negative margins exactly within the allowables, row %d' % r, allpos == inside, None if h.symbolic else (
                lambda: min(abs(abs(x) - y) / y for x, y in ((s1[r], t1), (s1[r], c1), (s2[r], t2), (s2[r], c2), (s12[r], s))) - 1e-9))
        if crit[r] not in MARGINS:
            h.fail('critical is %r' % (crit[r],))
            continue
        low = g[MARGINS.index(crit[r])]
        for n, a in zip(MARGINS, g):
            h.true('%s is not below the critical %s of row %d' % (n, crit[r], r), low <= a,
                   None if h.symbolic else (lambda a=a, low=low: low - a - 1e-9 * abs(low)))


def direct(h, als, angles, low, high, share=None):
    """A laminate of 2 mm plies with unit stiffness under loads chosen so that the laminate-axes stresses vary linearly
    from `low` at the bottom to `high` at the top surface."""
    M = h.mod('composipy').OrthotropicMaterial
    I = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    Z = [[0] * 3] * 3

    class Unit(M):
        @property
        def Q_0(self):
            return h.arr(I)
    plies = [Unit(1, 1, 0, 1, 2, *al) for al in als]
    if share == 'one':
        plies = plies[0]
    elif share is not None:
        plies = [plies[[x is y for y in als].index(True)] for x in als]
    N = len(als)
    P = with_ABD(h, lam(h, list(angles), plies), I, Z, I)
    F = [(a + b) / 2 for a, b in zip(low, high)] + [(b - a) / (2 * N) for a, b in zip(low, high)]
    return strength(h, P, F)


def one_surface(h):
    """One ply: three overstressed components at one surface, anything at the other."""
    al = allow(h, '')
    r = h.choice('surface', [0, 1])
    k = [h.real('r%d' % i, (-2, 2)) for i in range(3)]
    free = [k[0] * al[0], k[1] * al[2], k[2] * al[4]]
    other = [3 * al[0], 2 * al[2], al[4] * h.q(3, 2)]
    S = direct(h, [al], [0], *((free, other) if r == 0 else (other, free)))
    return S, al, r


def c12_row(h):
    """Every sign, size and order of the stresses at one surface."""
    S, al, r = one_surface(h)
    st = S.calculate_stress()
    df = S.calculate_maxstressmargin()
    check_margins(h, df, st, [al, al], range(2), flags=True)


def c12_laminate(h):
    """Several plies with their own allowables and angles; every sign pattern."""
    N = h.choice('plies', [2, 3] if not h.thorough else [2, 3, 4, 5])
    al = [allow(h, '_%d' % k) for k in range(N)]
    sg = [h.choice('sign%d' % i, [1, -1]) for i in range(3)]
    angles = [(0, 90, 0, 0, 90), (90, 0, 0, 90, 90)][h.choice('angles', [0, 1])][:N]
    lo = [g * (1 + h.q(i + 1, 8)) for i, g in enumerate(sg)]
    hi = [g * (2 - h.q(i + 1, 8)) for i, g in enumerate(sg)]
    c = h.choice('lowest', [0, 1, 2])
    for k, a in enumerate(al):
        for i, x in enumerate(a):
            g = (i // 2 - c - k) % 3
            h.assume(x < (2, 8, 32)[g])
            h.assume(x > (1, 4, 16)[g])
    S = direct(h, al, angles, lo, hi)
    st = S.calculate_stress()
    check_margins(h, S.calculate_maxstressmargin(), st, [al[r // 2] for r in range(2 * N)], range(2 * N))


def c12_shared(h):
    """Longer stacks in which plies share one material object or two."""
    N = h.choice('plies', [3, 4, 6, 11] if not h.thorough else [3, 4, 5, 6, 7, 8, 11, 12])
    two = [allow(h, '_a'), allow(h, '_b')]
    kind = h.choice('materials', ['one', 'alternating', 'sandwich'])
    w = [0 if kind == 'one' else k % 2 if kind == 'alternating' else int(k not in (0, N - 1)) for k in range(N)]
    sg = [h.choice('sign%d' % i, [1, -1]) for i in range(3)]
    lo = [g * (1 + h.q(i + 1, 8)) for i, g in enumerate(sg)]
    hi = [g * (2 - h.q(i + 1, 8)) for i, g in enumerate(sg)]
    for k, a in enumerate(two):
        for i, x in enumerate(a):
            g = (i // 2 - k) % 3
            h.assume(x < (2, 8, 32)[g])
            h.assume(x > (1, 4, 16)[g])
    S = direct(h, [two[i] for i in w], [0, 90, 90, 0, 180, -90, 0, 0, 90, 0, 90, 0][:N], lo, hi, share=kind)
    st = S.calculate_stress()
    check_margins(h, S.calculate_maxstressmargin(), st, [two[w[r // 2]] for r in range(2 * N)], range(2 * N))


PROPS = {
    'C09': dict(parts=dict(any=c09_any, laminate=c09_laminate, positional=c09_positional, changed=c09_changed, whole=c09_whole),
                bounds=dict(quick='any symmetric A, B, D and loads (reals); real laminates of up to 4 different plies; loads changed after a query; 4 load cases of type int',
                            thorough='any symmetric A, B, D and loads (reals); real laminates of up to 6 different plies; the rest as quick'),
                assumptions=['ABD is invertible; the 6x6 solution is represented by its defining equation']),
    'C10': dict(parts=dict(tables=c10), bounds=dict(quick='N <= 5 different plies, N = 6, 11 of two materials with 3 free angles, all loads', thorough='N <= 8 different plies, N <= 16 of two materials, all loads'),
                assumptions=['for more than two plies ABD is any symmetric matrix (its value is C04)']),
    'C11': dict(parts=dict(different=c11, one=c11_one), bounds=dict(quick='N <= 4 different plies; N in {3, 4, 6, 8, 9} plies of one material with 2 free angles',
                                                                   thorough='N <= 6 different plies; N <= 20 plies of one material')),
    'C12': dict(parts=dict(row=c12_row, laminate=c12_laminate, shared=c12_shared),
                bounds='all stresses (signs, zero, size, order) and positive allowables at either surface of one ply; 2 and 3 (thorough: up to 5) plies of different allowables and angles, 3 to 6 and 11 (thorough: up to 12) plies of one or two shared materials, allowables in boxes, 24 sign and order patterns'),
}
