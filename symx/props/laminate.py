"""C01-C08, C28 (part), C30: materials and laminates."""


# ------------------------------------------------------------------ inputs
def consts(h, tag):
    """Elastic constants and thickness of an admissible orthotropic ply (moduli and thickness positive, -0.5 <= v12 <=
    0.5, positive definite: v12^2 e2 < e1)."""
    e1 = h.pos('e1' + tag, (5e4, 2e5))
    e2 = h.pos('e2' + tag, (5e3, 2e4))
    v12 = h.real('v12' + tag, (-0.45, 0.45))
    g12 = h.pos('g12' + tag, (2e3, 9e3))
    t = h.pos('t' + tag, (0.05, 0.6))
    h.assume(v12 >= -0.5)
    h.assume(v12 <= 0.5)
    h.assume(e1 - v12 * v12 * e2 > 0)
    return e1, e2, v12, g12, t


def ortho(h, tag=''):
    return h.mod('composipy').OrthotropicMaterial(*consts(h, tag))


def arbitrary_Q(h, tag='', t=None):
    """A material whose Q_0 is an arbitrary orthotropic stiffness: the laminate formulas are checked for every Q_0 (that
    Q_0 is right is C01). The elastic constants passed to the constructor are placeholders."""
    q = [h.pos('Q11' + tag, (5e4, 2e5)), h.real('Q12' + tag, (1e3, 6e3)), h.pos('Q22' + tag, (5e3, 2e4)),
         h.pos('Q66' + tag, (2e3, 9e3))]
    t = h.pos('t' + tag, (0.05, 0.6)) if t is None else t
    M = h.mod('composipy').OrthotropicMaterial
    Q = h.arr([[q[0], q[1], 0], [q[1], q[2], 0], [0, 0, q[3]]])

    class ArbitraryQ(M):
        @property
        def Q_0(self):
            return Q
    return ArbitraryQ(100000, 10000, 0.25, 5000, t, name='tape'), q, t


def lam(h, stacking, plies):
    return h.mod('composipy').LaminateProperty(stacking, plies)


# ------------------------------------------------------------------ oracles, written independently of the code
def qbar(h, q, theta):
    """Laminate-axes stiffness from strain energy: eps_material = R(theta) eps_laminate with engineering shear."""
    q11, q12, q22, q66 = q
    c, s = h.cosd(theta), h.sind(theta)
    R = [[c * c, s * s, c * s], [s * s, c * c, -c * s], [-2 * c * s, 2 * c * s, c * c - s * s]]
    Q = [[q11, q12, 0], [q12, q22, 0], [0, 0, q66]]
    out = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            v = 0
            for k in range(3):
                for l in range(3):
                    if isinstance(Q[k][l], int):
                        continue
                    v = v + R[k][i] * Q[k][l] * R[l][j]
            out[i][j] = v
    return out


def zs(ts):
    T = 0
    for t in ts:
        T = T + t
    z = [-T / 2]
    for t in ts:
        z.append(z[-1] + t)
    return z


def moments(h, qs, thetas, ts, powers=(0, 1, 2)):
    z = zs(ts)
    out = []
    for p in powers:
        M = [[0] * 3 for _ in range(3)]
        for k, (q, th) in enumerate(zip(qs, thetas)):
            w = (z[k + 1] ** (p + 1) - z[k] ** (p + 1)) / (p + 1)
            Qb = qbar(h, q, th)
            for i in range(3):
                for j in range(3):
                    M[i][j] = M[i][j] + w * Qb[i][j]
        out.append(M)
    return out


def magnitude(h, qs, ts, p):
    """Size of the terms of a moment, for the concrete tolerance."""
    if h.symbolic:
        return None
    T = sum(ts)
    return max(max(abs(x) for x in q) for q in qs) * T ** (p + 1)


# ------------------------------------------------------------------ C01
def c01_ortho(h):
    e1, e2, v12, g12, t = consts(h, '')
    al = [h.nonneg(n, (1, 100)) for n in ('t1', 'c1', 't2', 'c2', 's')]
    m = h.mod('composipy').OrthotropicMaterial(e1, e2, v12, g12, t, *al)
    h.eq('constants', [m.e1, m.e2, m.v12, m.g12, m.thickness, m.t1, m.c1, m.t2, m.c2, m.s], [e1, e2, v12, g12, t] + al)
    h.eq('reciprocity', m.v21 * e1, v12 * e2)
    Q = m.Q_0
    S = [[1 / e1, -v12 / e1, 0], [-v12 / e1, 1 / e2, 0], [0, 0, 1 / g12]]
    prod = [[sum((S[i][k] * Q[k, j] for k in range(3)), 0) for j in range(3)] for i in range(3)]
    h.eq('compliance * Q_0', prod, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    h.eq('symmetric', Q, Q.T)
    h.true('Q11 > 0', Q[0, 0] > 0)
    h.true('minor > 0', Q[0, 0] * Q[1, 1] - Q[0, 1] * Q[1, 0] > 0)
    h.true('Q66 > 0', Q[2, 2] > 0)
    U = m.Invariants()
    h.eq('invariants', [U[0] + U[1] + U[2], U[0] - U[1] + U[2], U[3] - U[2], U[4] - U[2]],
         [Q[0, 0], Q[1, 1], Q[0, 1], Q[2, 2]])
    q11, q12, q22, q66 = Q[0, 0], Q[0, 1], Q[1, 1], Q[2, 2]
    h.eq('U1..U5', [8 * U[0], 2 * U[1], 8 * U[2], 8 * U[3], 8 * U[4]],
         [3 * q11 + 3 * q22 + 2 * q12 + 4 * q66, q11 - q22, q11 + q22 - 2 * q12 - 4 * q66, q11 + q22 + 6 * q12 - 4 * q66,
          q11 + q22 - 2 * q12 + 4 * q66])


def c01_iso(h):
    e = h.pos('e', (5e4, 2e5))
    v = h.real('v', (-0.45, 0.45))
    g = h.pos('g', (2e3, 9e4))
    t = h.pos('t', (0.1, 3))
    h.assume(v >= -0.5)
    h.assume(v <= 0.5)
    M = h.mod('composipy').IsotropicMaterial
    if h.choice('allowables', ['default', 'given']) == 'given':
        al = [h.nonneg(n, (1, 100)) for n in ('ta', 'ca', 'sa')]
        m = M(e, v, g, t, *al)
        h.eq('allowables', [m.t, m.c, m.s], al)
    else:
        m = M(e, v, g, t)
    h.eq('constants', [m.e, m.v, m.g, m.thickness], [e, v, g, t])
    Q = m.Q_0
    S = [[1 / e, -v / e, 0], [-v / e, 1 / e, 0], [0, 0, 1 / g]]
    prod = [[sum((S[i][k] * Q[k, j] for k in range(3)), 0) for j in range(3)] for i in range(3)]
    h.eq('compliance * Q_0', prod, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    h.eq('symmetric', Q, Q.T)
    h.true('Q11 > 0', Q[0, 0] > 0)
    h.true('minor > 0', Q[0, 0] * Q[1, 1] - Q[0, 1] * Q[1, 0] > 0)
    h.true('Q66 > 0', Q[2, 2] > 0)


# ------------------------------------------------------------------ C02
def c02_rotation(h):
    m = ortho(h)
    th = h.angle('theta')
    Q0 = m.Q_0
    q = [Q0[0, 0], Q0[0, 1], Q0[1, 1], Q0[2, 2]]
    L = lam(h, [th], m)
    Q = L.Q_layup[0]
    h.eq('Q_layup = R^T Q_0 R', Q, qbar(h, q, th), scale=None if h.symbolic else q[0])
    h.eq('symmetric', Q, Q.T, scale=None if h.symbolic else q[0])
    # strain energy for an arbitrary strain
    e = [h.real('ex'), h.real('ey'), h.real('gxy')]
    T, Te = L.T_layup[0]
    em = [sum((Te[i][k] * e[k] for k in range(3)), 0) for i in range(3)]
    lhs = sum((e[i] * Q[i][j] * e[j] for i in range(3) for j in range(3)), 0)
    rhs = sum((em[i] * Q0[i][j] * em[j] for i in range(3) for j in range(3)), 0)
    h.eq('energy', lhs, rhs)
    c, s = h.cosd(th), h.sind(th)
    # T_layup against tensor rotation: S' = a S a^T with a = [[c, s], [-s, c]]
    S = [[h.real('sx'), h.real('txy')], [h.real('txy'), h.real('sy')]]
    a = [[c, s], [-s, c]]
    Sm = [[sum((a[i][k] * S[k][l] * a[j][l] for k in range(2) for l in range(2)), 0) for j in range(2)] for i in range(2)]
    sv = [S[0][0], S[1][1], S[0][1]]
    h.eq('stress transformation', [sum((T[i][k] * sv[k] for k in range(3)), 0) for i in range(3)], [Sm[0][0], Sm[1][1], Sm[0][1]], scale=1)
    E = [[e[0], e[2] / 2], [e[2] / 2, e[1]]]
    Em = [[sum((a[i][k] * E[k][l] * a[j][l] for k in range(2) for l in range(2)), 0) for j in range(2)] for i in range(2)]
    h.eq('strain transformation', em, [Em[0][0], Em[1][1], 2 * Em[0][1]], scale=1)


def c02_special(h):
    m = ortho(h)
    Q0 = m.Q_0
    th = h.angle('theta')
    P = h.choice('turn', [180, -180, 360])
    s = None if h.symbolic else Q0[0, 0]
    L = lam(h, [th, th + P, 0, 90, -90, 180], m)
    Q = L.Q_layup
    h.eq('period', Q[1], Q[0], scale=s)
    h.eq('Q(0)', Q[2], Q0, scale=s)
    ex = [[Q0[1, 1], Q0[0, 1], 0], [Q0[0, 1], Q0[0, 0], 0], [0, 0, Q0[2, 2]]]
    h.eq('Q(90)', Q[3], ex, scale=s)
    h.eq('Q(-90)', Q[4], ex, scale=s)
    h.eq('Q(180)', Q[5], Q0, scale=s)


def c02_isotropic(h):
    """Plies of a material given by e, v and any g: cubic, not isotropic, unless g = e / (2 (1 + v))."""
    e, v, g, t = h.pos('e', (5e4, 2e5)), h.real('v', (-0.45, 0.45)), h.pos('g', (2e3, 9e4)), h.pos('t', (0.1, 3))
    h.assume(v >= -0.5)
    h.assume(v <= 0.5)
    m = h.mod('composipy').IsotropicMaterial(e, v, g, t)
    th = [h.angle('theta%d' % k) for k in range(2)]
    o = ortho(h, 'o')
    stack, ms = h.choice('stack', [([0], [0]), ([0, 1], [0, 0]), ([0, 1], [0, 1]), ([1, 0], [1, 0])])
    L = lam(h, [th[k] for k in stack], [(m, o)[k] for k in ms])
    q = {0: [m.Q_0[0, 0], m.Q_0[0, 1], m.Q_0[1, 1], m.Q_0[2, 2]], 1: [o.Q_0[0, 0], o.Q_0[0, 1], o.Q_0[1, 1], o.Q_0[2, 2]]}
    for i, (k, w) in enumerate(zip(stack, ms)):
        h.eq('Q_layup[%d]' % i, L.Q_layup[i], qbar(h, q[w], th[k]), scale=None if h.symbolic else max(e, o.e1))


def c02_stack(h):
    """Every ply of a stack gets its own angle and material."""
    n = 3
    ms = [arbitrary_Q(h, '_%d' % k) for k in range(n)]
    th = [h.angle('theta%d' % k) for k in range(n)]
    L = lam(h, list(th), [m[0] for m in ms])
    Q = L.Q_layup
    TL = L.T_layup
    for k in range(n):
        h.eq('Q_layup[%d]' % k, Q[k], qbar(h, ms[k][1], th[k]), scale=None if h.symbolic else 2e5)
        c, s = h.cosd(th[k]), h.sind(th[k])
        h.eq('T[%d]' % k, TL[k][0], [[c * c, s * s, 2 * c * s], [s * s, c * c, -2 * c * s], [-c * s, c * s, c * c - s * s]], scale=1)
        h.eq('Te[%d]' % k, TL[k][1], [[c * c, s * s, c * s], [s * s, c * c, -c * s], [-2 * c * s, 2 * c * s, c * c - s * s]], scale=1)
    h.eq('number of plies', [len(Q), len(TL)], [n, n])


# ------------------------------------------------------------------ C03
def c03(h):
    N = h.choice('plies', list(range(1, 13)) + [16, 24, 33] if not h.thorough else list(range(1, 41)) + [48, 64, 100])
    M = h.mod('composipy').OrthotropicMaterial
    kind = h.choice('materials', ['one', 'each', 'each of one name', 'two in turn'])
    if kind == 'one':
        t = h.pos('t', (0.1, 0.5))
        m = M(100000, 10000, .3, 5000, t)
        ts = [t] * N
        L = lam(h, [h.angle('theta%d' % (k % 3)) for k in range(N)], m)
    elif kind == 'two in turn':
        ms = [M(100000, 10000, .3, 5000, h.pos('t%d' % k, (0.1, 0.5))) for k in (0, 1)]
        ts = [ms[k % 2].thickness for k in range(N)]
        L = lam(h, [h.angle('theta%d' % (k % 3)) for k in range(N)], [ms[k % 2] for k in range(N)])
    else:
        ts = [h.pos('t%d' % k, (0.1, 0.5)) for k in range(N)]
        L = lam(h, [h.angle('theta%d' % (k % 3)) for k in range(N)], [M(100000, 10000, .3, 5000, t, name='tape' if 'name' in kind else None) for t in ts])
    for rep in (0, 1):
        z = L.z_position
        if len(z) != N + 1:
            h.fail('number of interfaces is %d for %d plies' % (len(z), N))
            return
        T = 0
        for t in ts:
            T = T + t
        h.eq('bottom', z[0], -T / 2)
        h.eq('top', z[N], T / 2)
        h.eq('thicknesses', [z[k + 1] - z[k] for k in range(N)], ts)
        for k in range(N):
            h.true('increasing %d' % k, z[k + 1] > z[k])


# ------------------------------------------------------------------ C04
def check_ABD(h, L, qs, th, ts, label=''):
    A, B, D = moments(h, qs, th, ts)
    gA, gB, gD = L.A, L.B, L.D
    h.eq(label + 'A', gA, A, scale=magnitude(h, qs, ts, 0))
    h.eq(label + 'B', gB, B, scale=magnitude(h, qs, ts, 1))
    h.eq(label + 'D', gD, D, scale=magnitude(h, qs, ts, 2))
    abd = L.ABD
    h.eq(label + 'ABD shape', list(abd.shape), [6, 6])
    h.eq(label + 'ABD[A]', abd[:3, :3], A, scale=magnitude(h, qs, ts, 0))
    h.eq(label + 'ABD[B]', abd[:3, 3:], B, scale=magnitude(h, qs, ts, 1))
    h.eq(label + 'ABD[B2]', abd[3:, :3], B, scale=magnitude(h, qs, ts, 1))
    h.eq(label + 'ABD[D]', abd[3:, 3:], D, scale=magnitude(h, qs, ts, 2))


def c04_general(h):
    """Different material, angle and thickness in every ply."""
    N = h.choice('plies', [1, 2, 3, 4, 5] if not h.thorough else [1, 2, 3, 4, 5, 6, 7, 8])
    ms = [arbitrary_Q(h, '_%d' % k) for k in range(N)]
    th = [h.angle('theta%d' % k) for k in range(N)]
    L = lam(h, list(th), [m[0] for m in ms])
    check_ABD(h, L, [m[1] for m in ms], th, [m[2] for m in ms])


def c04_real_material(h):
    """Real constants in Q_0 (not an arbitrary one)."""
    m = ortho(h)
    m2 = h.mod('composipy').IsotropicMaterial(h.pos('e', (1e4, 1e5)), 0.25, h.pos('g', (1e3, 1e4)), h.pos('ti', (0.1, 1)))
    th = [h.angle('theta0'), h.angle('theta1')]
    plies = [m, m2] if h.choice('order', [0, 1]) == 0 else [m2, m]
    L = lam(h, list(th), plies)
    qs = [[p.Q_0[0, 0], p.Q_0[0, 1], p.Q_0[1, 1], p.Q_0[2, 2]] for p in plies]
    check_ABD(h, L, qs, th, [p.thickness for p in plies])


def c04_one_material(h):
    """One material for all plies; more plies, equal thickness."""
    N = h.choice('plies', list(range(1, 13)) + [16, 17, 24, 33] if not h.thorough else list(range(1, 41)) + [48, 64, 100])
    m, q, t = arbitrary_Q(h)
    na = min(N, 4)
    th = [h.angle('theta%d' % (k % na)) for k in range(N)]
    L = lam(h, list(th), m)
    check_ABD(h, L, [q] * N, th, [t] * N)


def c04_patterns(h):
    """Long stacks of two or three materials of different thickness: sandwich, alternating, lower half and upper half."""
    N = h.choice('plies', [4, 5, 6, 8, 9, 12] if not h.thorough else list(range(4, 17)) + [20, 25, 32])
    pat = h.choice('pattern', ['sandwich', 'alternating', 'halves', 'three', 'odd one'])
    ms = [arbitrary_Q(h, x) for x in 'abc']
    which = [{'sandwich': 0 if k in (0, N - 1) else 1, 'alternating': k % 2, 'halves': 0 if 2 * k < N else 1, 'three': k % 3,
              'odd one': 1 if k == N - 2 else 0}[pat] for k in range(N)]
    base = [h.angle('x'), h.angle('y'), h.angle('w')]
    sym = h.choice('angles', ['cycle', 'symmetric', 'balanced'])
    th = [base[(k if sym == 'cycle' else min(k, N - 1 - k)) % 3] for k in range(N)]
    if sym == 'balanced':
        th = [base[(k // 2) % 3] * (1 if k % 2 == 0 else -1) for k in range(N)]
    L = lam(h, th, [ms[w][0] for w in which])
    check_ABD(h, L, [ms[w][1] for w in which], th, [ms[w][2] for w in which])


def c04_numbers(h):
    """Whole numbers, floats and numpy numbers as angles, mixed with free ones."""
    m, q, t = arbitrary_Q(h, 'a')
    m2, q2, t2 = arbitrary_Q(h, 'b')
    x = h.angle('x')
    stack = h.choice('stack', [[0, 90, 90, 0], [45, -45, -45, 45], [0.0, 60, -60.0, -60, 60, 0], [90, 0, 45, -45], [0, None, 90], [-90, None, None, 180, 270, -45],
                               [135, -30, 30, None, -135], [0], [90], [45, 45], [15, -15, 15, -15], [360, None, 22.5, -67.5]])
    stack = [x if a is None else a for a in stack]
    two = h.choice('materials', ['one', 'two'])
    which = [two == 'two' and k % 2 for k in range(len(stack))]
    L = lam(h, stack, [m2 if w else m for w in which] if two == 'two' else m)
    check_ABD(h, L, [q2 if w else q for w in which], stack, [t2 if w else t for w in which])


def c04_containers(h):
    """tuples, numpy arrays and repeated material objects as definitions."""
    m, q, t = arbitrary_Q(h, 'a')
    m2, q2, t2 = arbitrary_Q(h, 'b')
    th = [h.angle('x'), h.angle('y')]
    kind = h.choice('kind', ['tuple', 'array'])
    stack = [th[0], th[1], th[1], th[0]]
    L = lam(h, tuple(stack) if kind == 'tuple' else h.arr(stack), [m, m2, m, m2] if kind == 'tuple' else (m, m2, m, m2))
    check_ABD(h, L, [q, q2, q, q2], stack, [t, t2, t, t2])


# ------------------------------------------------------------------ C05
def any_stack(h, low=1):
    """N plies: all different, or (more of them) of two materials with three free angles."""
    N = h.choice('plies', ([1, 2, 3, 4] if not h.thorough else [1, 2, 3, 4, 5, 6])[low - 1:] + ([-6, -9, -12] if not h.thorough else [-6, -7, -8, -9, -12, -16, -20, -25]))
    if N > 0:
        ms = [arbitrary_Q(h, '_%d' % k) for k in range(N)]
        return ms, [h.angle('theta%d' % k) for k in range(N)]
    two, an = [arbitrary_Q(h, '_%d' % k) for k in range(2)], [h.angle('theta%d' % k) for k in range(3)]
    return [two[(k // 2) % 2] for k in range(-N)], [an[k % 3] * (-1 if k % 4 == 1 else 1) for k in range(-N)]


def c05_symmetric_matrix(h):
    ms, th = any_stack(h)
    L = lam(h, th, [m[0] for m in ms])
    abd = L.ABD
    h.eq('ABD = ABD^T', abd, abd.T)


def c05_midplane(h):
    half = h.choice('half', [1, 2, 3, 4, 5] if not h.thorough else [1, 2, 3, 4, 5, 6, 7, 8])
    odd = h.choice('odd', [0, 1])
    ms = [arbitrary_Q(h, '_%d' % k) for k in range(half + odd)]
    th = [h.angle('theta%d' % k) for k in range(half + odd)]
    idx = list(range(half + odd)) + list(reversed(range(half)))
    L = lam(h, [th[i] for i in idx], [ms[i][0] for i in idx])
    sc = magnitude(h, [m[1] for m in ms], [ms[i][2] for i in idx], 1)
    h.eq('B of a symmetric stack', L.B, [[0] * 3] * 3, scale=sc)
    h.eq('ABD coupling block', L.ABD[:3, 3:], [[0] * 3] * 3, scale=sc)


def c05_reverse(h):
    ms, th = any_stack(h, 2)
    L = lam(h, list(th), [m[0] for m in ms])
    R = lam(h, th[::-1], [m[0] for m in ms][::-1])
    ts = [m[2] for m in ms]
    qs = [m[1] for m in ms]
    h.eq('A', R.A, L.A)
    h.eq('B', R.B, -L.B, scale=magnitude(h, qs, ts, 1))
    h.eq('D', R.D, L.D)


def c05_negate(h):
    ms, th = any_stack(h)
    L = lam(h, list(th), [m[0] for m in ms])
    R = lam(h, [-x for x in th], [m[0] for m in ms])
    sg = [[1, 1, -1], [1, 1, -1], [-1, -1, 1]]
    for n, a, b, p in (('A', L.A, R.A, 0), ('B', L.B, R.B, 1), ('D', L.D, R.D, 2)):
        h.eq(n, b, [[sg[i][j] * a[i, j] for j in range(3)] for i in range(3)],
             scale=magnitude(h, [m[1] for m in ms], [m[2] for m in ms], p))


def c05_rotate(h):
    ms, th = any_stack(h)
    L = lam(h, list(th), [m[0] for m in ms])
    R = lam(h, [x + 90 for x in th], [m[0] for m in ms])
    pm = [1, 0, 2]
    sg = [1, 1, -1]
    for n, a, b, p in (('A', L.A, R.A, 0), ('B', L.B, R.B, 1), ('D', L.D, R.D, 2)):
        h.eq(n, b, [[sg[i] * sg[j] * a[pm[i], pm[j]] for j in range(3)] for i in range(3)],
             scale=magnitude(h, [m[1] for m in ms], [m[2] for m in ms], p))


# ------------------------------------------------------------------ C06
def trig_moments(h, th, ts):
    z = zs(ts)
    T = z[-1] - z[0]
    xa, xd = [0] * 4, [0] * 4
    for k, x in enumerate(th):
        f = [h.cosd(2 * x), h.sind(2 * x), h.cosd(4 * x), h.sind(4 * x)]
        for i in range(4):
            xa[i] = xa[i] + f[i] * (z[k + 1] - z[k])
            xd[i] = xd[i] + f[i] * (z[k + 1] ** 3 - z[k] ** 3)
    return [x / T for x in xa], [4 * x / T ** 3 for x in xd]


def placeholder(h, t):
    return h.mod('composipy').OrthotropicMaterial(100000, 10000, .25, 5000, t, name='tape')


def c06_values(h):
    N = h.choice('plies', [1, 2, 3, 4, 5, 6] if not h.thorough else [1, 2, 3, 4, 5, 6, 7, 8])
    ts = [h.pos('t%d' % k, (0.1, 0.5)) for k in range(N)]
    th = [h.angle('theta%d' % k) for k in range(N)]
    L = lam(h, list(th), [placeholder(h, t) for t in ts])
    xa, xd = trig_moments(h, th, ts)
    h.eq('xiA', L.xiA, xa, scale=1)
    h.eq('xiD', L.xiD, xd, scale=1)


def c06_many(h):
    """More plies of one thickness."""
    N = h.choice('plies', [5, 6, 7, 8, 10, 12, 17, 24, 33] if not h.thorough else list(range(5, 41)) + [48, 64, 100])
    t = h.pos('t', (0.1, 0.5))
    th = [h.angle('theta%d' % (k % 4)) for k in range(N)]
    L = lam(h, list(th), placeholder(h, t))
    xa, xd = trig_moments(h, th, [t] * N)
    h.eq('xiA', L.xiA, xa, scale=1)
    h.eq('xiD', L.xiD, xd, scale=1)


def c06_mixed(h):
    """Long stacks of two thicknesses."""
    N = h.choice('plies', [4, 5, 8, 9, 12] if not h.thorough else list(range(4, 17)) + [20, 25])
    t = [h.pos('t', (0.1, 0.5)), h.pos('u', (0.1, 0.9))]
    pat = h.choice('pattern', ['sandwich', 'alternating', 'halves'])
    w = [{'sandwich': 0 if k in (0, N - 1) else 1, 'alternating': k % 2, 'halves': 0 if 2 * k < N else 1}[pat] for k in range(N)]
    ms = [placeholder(h, x) for x in t]
    th = [h.angle('theta%d' % (k % 3)) for k in range(N)]
    L = lam(h, list(th), [ms[i] for i in w])
    xa, xd = trig_moments(h, th, [t[i] for i in w])
    h.eq('xiA', L.xiA, xa, scale=1)
    h.eq('xiD', L.xiD, xd, scale=1)


def c06_range(h):
    """Components in [-1, 1] and the parabola, from the code's own values."""
    N = h.choice('plies', [1, 2, 3, 4] if not h.thorough else [1, 2, 3, 4, 5, 6])
    ts = [h.pos('t%d' % k, (0.1, 0.5)) for k in range(N)]
    th = [h.angle('theta%d' % k) for k in range(N)]
    L = lam(h, list(th), [placeholder(h, t) for t in ts])
    z = zs(ts)
    T = z[-1] - z[0]
    # the bounding functions as squares: 1 - cos2t = 2 sin^2 t, 1 - sin2t = (sin t - cos t)^2, and so on
    up, dn = [], []
    for x in th:
        c, s, c2, s2 = h.cosd(x), h.sind(x), h.cosd(2 * x), h.sind(2 * x)
        up.append([(2, s), (1, s - c), (2, s2), (1, s2 - c2)])
        dn.append([(2, c), (1, s + c), (2, c2), (1, s2 + c2)])
    for name, xi, p in (('xiA', L.xiA, 1), ('xiD', L.xiD, 3)):
        # w_k as squares with positive coefficients: z1^3 - z0^3 = t (3 (z0 + z1)^2 + t^2) / 4
        w = [[(t / T, 1)] if p == 1 else [(3 * t / T ** 3, z[k] + z[k + 1]), (t / T ** 3, t)] for k, t in enumerate(ts)]
        for i in range(4):
            h.sos('%s[%d] <= 1' % (name, i), 1 - xi[i], [(wk * up[k][i][0], sq * up[k][i][1]) for k in range(N) for wk, sq in w[k]])
            h.sos('%s[%d] >= -1' % (name, i), 1 + xi[i], [(wk * dn[k][i][0], sq * dn[k][i][1]) for k in range(N) for wk, sq in w[k]])
        g = xi[2] - 2 * xi[0] * xi[0] + 1
        h.sos(name + ' parabola', g, [(2 * wi * wj, si * sj * (h.cosd(2 * th[i]) - h.cosd(2 * th[j])))
                                      for i in range(N) for j in range(i) for wi, si in w[i] for wj, sj in w[j]] or [(0, 1)])


def c06_scale(h):
    N = h.choice('plies', [1, 2, 3])
    k = h.pos('k', (0.2, 5))
    ts = [h.pos('t%d' % i, (0.1, 0.5)) for i in range(N)]
    th = [h.angle('theta%d' % i) for i in range(N)]
    L = lam(h, list(th), [placeholder(h, t) for t in ts])
    R = lam(h, list(th), [placeholder(h, k * t) for t in ts])
    h.eq('xiA', R.xiA, L.xiA, scale=1)
    h.eq('xiD', R.xiD, L.xiD, scale=1)


# ------------------------------------------------------------------ C07
def c07(h):
    N = h.choice('plies', [1, 2, 3, 4, 5, 6, 8, 12, 17, 24] if not h.thorough else list(range(1, 41)) + [64, 100])
    m = ortho(h) if N <= 2 else arbitrary_Q(h)[0]
    nth = min(N, 3)
    th = [h.angle('theta%d' % (k % nth)) for k in range(N)]
    L = lam(h, list(th), m)
    T = 0
    for k in range(N):
        T = T + m.thickness
    xa, xd = L.xiA, L.xiD
    R = lam(h, {'xiA': list(xa), 'xiD': list(xd), 'T': T}, m)
    Q0 = m.Q_0
    s = None if h.symbolic else Q0[0, 0]
    h.eq('A', R.A, L.A, scale=s and s * T)
    h.eq('D', R.D, L.D, scale=s and s * T ** 3)


# ------------------------------------------------------------------ C08
def lp_stiffness(U, xi, f):
    u1, u2, u3, u4, u5 = U
    a, b, c, d = xi
    return [[f * (u1 + u2 * a + u3 * c), f * (u4 - u3 * c), f * (u2 * b / 2 + u3 * d)],
            [f * (u4 - u3 * c), f * (u1 - u2 * a + u3 * c), f * (u2 * b / 2 - u3 * d)],
            [f * (u2 * b / 2 + u3 * d), f * (u2 * b / 2 - u3 * d), f * (u5 - u3 * c)]]


def invariants_of(q):
    q11, q12, q22, q66 = q
    return [(3 * q11 + 3 * q22 + 2 * q12 + 4 * q66) / 8, (q11 - q22) / 2, (q11 + q22 - 2 * q12 - 4 * q66) / 8,
            (q11 + q22 + 6 * q12 - 4 * q66) / 8, (q11 + q22 - 2 * q12 + 4 * q66) / 8]


def c08(h):
    m, q, t = arbitrary_Q(h)
    xa = [h.real('xiA%d' % i) for i in range(4)]
    xd = [h.real('xiD%d' % i) for i in range(4)]
    T = h.pos('T', (0.5, 4))
    d = {'xiD': list(xd), 'T': T}
    withA = h.choice('xiA', ['given', 'absent'])
    if withA == 'given':
        d['xiA'] = list(xa)
        if h.choice('xiB', ['absent', 'zero']) == 'zero':
            d['xiB'] = [0., 0., 0., 0.]
    order = h.choice('order', ['A B D', 'D B A', 'xi first'])
    L = lam(h, d, m)
    U = invariants_of(q)
    s = None if h.symbolic else q[0]
    if order == 'xi first':
        h.eq('xiD', L.xiD, xd)
        if withA == 'given':
            h.eq('xiA', L.xiA, xa)
    for X in ('ABD' if order != 'D B A' else 'DBA'):
        if X == 'A' and withA == 'given':
            A = L.A
            h.eq('A', A, lp_stiffness(U, xa, T), scale=s and s * T)
        if X == 'B':
            h.eq('B', L.B, [[0] * 3] * 3, scale=1)
        if X == 'D':
            h.eq('D', L.D, lp_stiffness(U, xd, T ** 3 / 12), scale=s and s * T ** 3)
    if withA == 'given':
        h.eq('A again', L.A, lp_stiffness(U, xa, T), scale=s and s * T)
        abd = L.ABD
        h.eq('ABD[A]', abd[:3, :3], lp_stiffness(U, xa, T), scale=s and s * T)
        h.eq('ABD[D]', abd[3:, 3:], lp_stiffness(U, xd, T ** 3 / 12), scale=s and s * T ** 3)
        h.eq('ABD[B]', [abd[:3, 3:], abd[3:, :3]], [[[0] * 3] * 3] * 2, scale=1)
        h.eq('xiA', L.xiA, xa)
    h.eq('xiD', L.xiD, xd)
    k = h.pos('k', (0.3, 3))
    d2 = dict(d)
    d2['T'] = k * T
    L2 = lam(h, d2, m)
    if withA == 'given':
        h.eq('A scales', L2.A, k * L.A)
    h.eq('D scales', L2.D, k ** 3 * L.D)


def c08_whole(h):
    """Parameters and thickness of type int, in lists, tuples and arrays."""
    m, q, t = arbitrary_Q(h)
    xa, xd, T = h.choice('values', [((0, 0, 0, 0), (0, 0, -1, 0), 2), ((1, 0, 1, 0), (-1, 0, 1, 0), 1), ((0, 0, -1, 0), (0, 0, 0, 0), 3), ((0, 1, -1, 0), (0, -1, -1, 0), 1)])
    U = invariants_of(q)
    c = {'list': list, 'tuple': tuple, 'array': h.arr}[h.choice('container', ['list', 'tuple', 'array'])]
    L = lam(h, {'xiA': c(xa), 'xiD': c(xd), 'T': T}, m)
    s = None if h.symbolic else q[0]
    h.eq('A', L.A, lp_stiffness(U, xa, T), scale=s and s * T)
    h.eq('D', L.D, lp_stiffness(U, xd, h.q(T ** 3, 12)), scale=s and s * T ** 3)
    h.eq('xiA, xiD', [L.xiA, L.xiD], [list(xa), list(xd)])


# ------------------------------------------------------------------ C30
def c30_lengths(h):
    N = h.choice('angles', [1, 2, 3, 4])
    K = h.choice('plies', [1, 2, 3, 4, 5])
    M = h.mod('composipy').OrthotropicMaterial
    th = [h.angle('theta%d' % k) for k in range(N)]
    ts = [h.pos('t%d' % k, (0.1, 0.5)) for k in range(K)]
    plies = [M(100000, 10000, .25, 5000, t) for t in ts]
    if h.choice('container', ['list', 'tuple']) == 'tuple':
        plies = tuple(plies)
    if N != K:
        h.raises('wrong number of plies', lambda: lam(h, th, plies), ValueError)
        return
    L = lam(h, list(th), plies)
    h.eq('pairs', [[a, p.thickness] for a, p in L.layup], [[a, t] for a, t in zip(th, ts)])
    h.true('same objects', all(p is q for (_, p), q in zip(L.layup, plies)))


def c30_single(h):
    N = h.choice('angles', [1, 2, 3, 5])
    m = placeholder(h, h.pos('t', (0.1, 0.5)))
    th = [h.angle('theta%d' % k) for k in range(N)]
    L = lam(h, list(th), m)
    h.eq('angles', [a for a, _ in L.layup], th)
    h.true('material', all(p is m for _, p in L.layup))


def c30_dict(h):
    m = placeholder(h, 0.2)
    d = {}
    if h.choice('has xiA', [0, 1]):
        d['xiA'] = [h.real('a%d' % i) for i in range(4)]
    if h.choice('has xiB', [0, 1]):
        d['xiB'] = [0., 0., 0., 0.]
    xd = h.choice('has xiD', [0, 1])
    tt = h.choice('has T', [0, 1])
    if xd:
        d['xiD'] = [h.real('d%d' % i) for i in range(4)]
    if tt:
        d['T'] = h.pos('T')
    if xd and tt:
        L = lam(h, d, m)
        U = m.Invariants()
        h.eq('D', L.D, lp_stiffness(U, d['xiD'], d['T'] ** 3 / 12), scale=None if h.symbolic else 1e5 * d['T'] ** 3)
        return
    try:
        lam(h, d, m)
    except KeyError as e:
        missing = [n for n, x in (('xiD', xd), ('T', tt)) if not x]
        h.true('the error names a missing entry', any(n in str(e) for n in missing))
        return
    except Exception as e:
        h.fail('raised %s' % type(e).__name__)
        return
    h.fail('accepted without %s' % ('xiD' if not xd else 'T'))


PROPS = {
    'C01': dict(parts=dict(ortho=c01_ortho, iso=c01_iso), bounds='none on the numbers: all admissible constants (reals)'),
    'C02': dict(parts=dict(rotation=c02_rotation, special=c02_special, isotropic=c02_isotropic, stack=c02_stack),
                bounds='all constants and angles; periods of 180, -180 and 360 degrees; stacks of up to 6 plies'),
    'C03': dict(parts=dict(z=c03), bounds=dict(quick='N <= 12 and N in {16, 24, 33} plies, all thicknesses', thorough='N <= 40 and N in {48, 64, 100} plies, all thicknesses')),
    'C04': dict(parts=dict(general=c04_general, real=c04_real_material, one=c04_one_material, patterns=c04_patterns, numbers=c04_numbers, containers=c04_containers),
                bounds=dict(quick='N <= 5 plies all different (any Q_0, angle, thickness); N <= 12 and 16, 17, 24, 33 plies of one material with 4 free angles; N <= 12 plies of two or three materials in 5 patterns with 3 free angles in cyclic, symmetric and balanced order; 12 stacks of concrete angles',
                            thorough='N <= 8 all different; N <= 40 and 48, 64, 100 of one material; patterns of up to 32 plies'),
                assumptions=['Q_0 is an arbitrary orthotropic stiffness (its own correctness is C01); one part uses the real Q_0']),
    'C05': dict(parts=dict(symmetric=c05_symmetric_matrix, midplane=c05_midplane, reverse=c05_reverse, negate=c05_negate, rotate=c05_rotate),
                bounds=dict(quick='N <= 4 different plies, N in {6, 9, 12} of two materials with 3 free angles (11 different in symmetric stacks)', thorough='N <= 6 different plies, N <= 25 of two materials (17 in symmetric stacks)')),
    'C06': dict(parts=dict(values=c06_values, many=c06_many, mixed=c06_mixed, range=c06_range, scale=c06_scale),
                bounds=dict(quick='values: N <= 6 different plies and N <= 33 of one thickness with 4 free angles; ranges N <= 4; two thicknesses N <= 12',
                            thorough='values: N <= 8 different plies and N <= 100 of one thickness; ranges N <= 6')),
    'C07': dict(parts=dict(roundtrip=c07), bounds=dict(quick='N <= 24 plies with 3 free angles, any material', thorough='N <= 100 plies with 3 free angles, any material')),
    'C08': dict(parts=dict(lp=c08, whole=c08_whole), bounds='all lamination parameters (reals), thickness, stiffness; 3 query orders; 4 sets of parameters of type int in 3 containers'),
    'C30': dict(parts=dict(lengths=c30_lengths, single=c30_single, dict=c30_dict),
                bounds='1..4 angles against 1..5 plies; every subset of the keys xiA, xiB, xiD, T'),
}
