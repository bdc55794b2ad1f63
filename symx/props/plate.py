"""C15-C20, C31: PlateStructure."""
from fractions import Fraction
from itertools import product

from .. import bardell
from .laminate import arbitrary_Q, lam
from .strength import symmetric3, with_ABD

EDGES = ('x0', 'xa', 'y0', 'yb')
DOFS = ('TX', 'TY', 'TZ', 'RX', 'RY', 'RZ')
NAMED = {'free': [], 'pinned': ['TX', 'TY', 'TZ'], 'simply_supported': ['TX', 'TY', 'TZ'], 'clamped': list(DOFS), 'fixed': list(DOFS)}
# coefficient tolerance: the shipped integrals have errors up to 1e-8 where the exact value is zero
TOL = dict(coef_tol=1e-9, abs_tol=1e-7)


def laminate(h, A=None, B=None, D=None):
    Z = [[0] * 3 for _ in range(3)]
    m = h.mod('composipy').OrthotropicMaterial(100000, 10000, 0.25, 5000, 0.5)
    return with_ABD(h, lam(h, [0, 90], m), A or Z, B or Z, D or Z)


def plate(h, prop, a, b, cons, N=(0, 0, 0), m=2, n=2):
    kw = dict(zip(('Nxx', 'Nyy', 'Nxy'), N))
    if cons is not None:
        kw['constraints'] = cons
    return h.mod('composipy').PlateStructure(prop, a, b, m=m, n=n, **kw)


def loads3(h, hint=(-2, 2)):
    return [h.real(n, hint) for n in ('Nxx', 'Nyy', 'Nxy')]


# strains of each displacement field: component -> (factor, order in x, order in y); x = a (xi + 1) / 2
STRAIN = {
    'u': {0: (1, 1, 0), 2: (1, 0, 1)},
    'v': {1: (1, 0, 1), 2: (1, 1, 0)},
    'w': {0: (-1, 2, 0), 1: (-1, 0, 2), 2: (-2, 1, 1)},
}


class Powers:
    """2^(p+q) a^-p b^-q a b / 4"""

    def __init__(self, h, a, b):
        self.a, self.b, self.c, self.h = a, b, {}, h

    def __call__(self, p, q):
        r = self.c.get((p, q))
        if r is None:
            r = self.c[p, q] = self.h.q(2 ** (p + q), 4) * self.a * self.b / (self.a ** p * self.b ** q)
        return r


def num(h, q):
    return q if h.symbolic else float(q)


def energy(h, F, G, fi, gi, a, b, M, pw=None):
    """Matrix of d2U/dc_F dc_G for the energy density M[p][q] strain_p strain_q (p of field F, q of field G)."""
    pw = pw or Powers(h, a, b)
    out = []
    for i, j in fi:
        row = []
        for k, l in gi:
            s = 0
            for p, (cf, fx, fy) in STRAIN[F].items():
                for q, (cg, gx, gy) in STRAIN[G].items():
                    I = bardell.inner(i, fx, k, gx) * bardell.inner(j, fy, l, gy) * cf * cg
                    if I and not (isinstance(M[p][q], int) and M[p][q] == 0):
                        s = s + num(h, I) * pw(fx + gx, fy + gy) * M[p][q]
            row.append(s)
        out.append(row)
    return out


def work(h, idx, a, b, N, pw=None):
    pw = pw or Powers(h, a, b)
    Nxx, Nyy, Nxy = N
    out = []
    for i, j in idx:
        row = []
        for k, l in idx:
            I = lambda p, q, r, s: num(h, bardell.inner(i, p, k, r) * bardell.inner(j, q, l, s))
            row.append(pw(2, 0) * Nxx * I(1, 0, 1, 0) + pw(0, 2) * Nyy * I(0, 1, 0, 1)
                       + pw(1, 1) * Nxy * (I(1, 0, 0, 1) + I(0, 1, 1, 0)))
        out.append(row)
    return out


def rows(x):
    return [list(r) for r in x.tolist()] if hasattr(x, 'tolist') else [list(r) for r in x]


def matrix_eq(h, label, got, want):
    """Row by row: the scale of each row is its own."""
    got, want = rows(got), rows(want)
    h.eq(label + ' shape', [len(got)] + [len(r) for r in got], [len(want)] + [len(r) for r in want], record=False)
    if h.symbolic:
        h.eq(label, got, want, record=False, **TOL)
        h.record(label, got[0])
        return
    floor = 3e-4 * max([abs(float(x)) for r in got + want for x in r] + [0.0])
    for i, (g, w) in enumerate(zip(got, want)):
        h.eq('%s row %d' % (label, i), g, w, tol=1e-5, scale=floor, record=False)
    h.record(label, got[0])


def transpose(x):
    return [list(r) for r in zip(*x)]


MIXED = {'x0': ['TX', 'TZ', 'RY'], 'xa': ['TY', 'RZ', 'RX'], 'y0': ['TZ', 'RZ', 'TX'], 'yb': ['TY', 'RY']}
OTHER = {'x0': ['TZ', 'RZ'], 'xa': ['TX'], 'y0': ['RZ', 'TY', 'RX'], 'yb': ['TZ', 'RX']}
NAMES4 = {'x0': 'clamped', 'xa': 'pinned', 'y0': 'free', 'yb': 'fixed'}
FREE = dict.fromkeys(EDGES, 'free')


# ------------------------------------------------------------------ C15
def c15_case(h, cases):
    m, n, cons = h.choice('case', cases)
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    D = symmetric3(h, 'D', (1, 4))
    N = loads3(h)
    pl = plate(h, laminate(h, D=D), a, b, cons, N, m, n)
    K, KG = pl.calc_K_KG_D()
    idx = list(pl.sw_idx)
    h.eq('number of functions', len(idx), m * n)
    matrix_eq(h, 'K', K, energy(h, 'w', 'w', idx, idx, a, b, D))
    matrix_eq(h, 'KG', KG, work(h, idx, a, b, N))
    if m * n <= 12:
        matrix_eq(h, 'K symmetric', K, transpose(rows(K)))
        matrix_eq(h, 'KG symmetric', KG, transpose(rows(KG)))


def c15_small(h):
    c15_case(h, [(m, n, c) for m, n in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2)) for c in ('PINNED', 'CLAMPED', None, MIXED, OTHER, NAMES4)]
             + [(3, 3, MIXED), (4, 3, FREE), (3, 4, FREE)])


def c15_long(h):
    """High-order functions in one direction."""
    k = 26
    c15_case(h, [(k, 1, 'PINNED'), (1, k, 'PINNED'), (k, 1, FREE), (1, k, FREE)])


def c15_medium(h):
    c15_case(h, [(5, 5, 'PINNED'), (6, 5, FREE), (5, 6, OTHER), (2, 13, NAMES4), (13, 2, MIXED), (7, 3, 'CLAMPED')])


def c15_large(h):
    c15_case(h, [(5, 6, FREE), (6, 6, 'CLAMPED'), (7, 7, MIXED), (13, 2, OTHER), (26, 2, 'PINNED'), (2, 26, 'PINNED'), (10, 4, NAMES4), (8, 8, 'PINNED'), (4, 11, FREE)])


def c15_laminate(h):
    """D read from a real laminate: a stack, or lamination parameters."""
    mat, q, t = arbitrary_Q(h)
    if h.choice('definition', ['stack', 'parameters']) == 'stack':
        L = lam(h, [h.angle('theta0'), h.angle('theta1')], mat)
    else:
        L = lam(h, {'xiA': [h.real('p%d' % i) for i in range(4)], 'xiD': [h.real('p%d' % i) for i in range(4, 8)], 'T': h.pos('T')}, mat)
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    N = loads3(h)
    m, n = h.choice('terms', [(1, 2), (2, 1)])
    pl = plate(h, L, a, b, None, N, m, n)
    K, KG = pl.calc_K_KG_D()
    matrix_eq(h, 'K', K, energy(h, 'w', 'w', pl.sw_idx, pl.sw_idx, a, b, L.D))
    matrix_eq(h, 'KG', KG, work(h, pl.sw_idx, a, b, N))


# ------------------------------------------------------------------ C16
def c16_case(h, cases):
    m, n, cons = h.choice('case', cases)
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    A, B, D = symmetric3(h, 'A', (1, 4)), symmetric3(h, 'B', (1, 4)), symmetric3(h, 'D', (1, 4))
    N = loads3(h)
    pl = plate(h, laminate(h, A, B, D), a, b, cons, N, m, n)
    K, KG = pl.calc_K_KG_ABD()
    idx = {'u': list(pl.su_idx), 'v': list(pl.sv_idx), 'w': list(pl.sw_idx)}
    pw = Powers(h, a, b)
    k = m * n
    h.eq('number of functions', [len(idx[f]) for f in 'uvw'], [k] * 3)
    K, KG = rows(K), rows(KG)
    h.eq('shape', [len(K), len(KG)] + [len(r) for r in K + KG], [3 * k] * (2 + 6 * k), record=False)
    for p, F in enumerate('uvw'):
        for q, G in enumerate('uvw'):
            M = D if F == G == 'w' else (B if 'w' in (F, G) else A)
            blk = [r[q * k:(q + 1) * k] for r in K[p * k:(p + 1) * k]]
            matrix_eq(h, 'K%s%s' % (F, G), blk, energy(h, F, G, idx[F], idx[G], a, b, M, pw))
            blk = [r[q * k:(q + 1) * k] for r in KG[p * k:(p + 1) * k]]
            matrix_eq(h, 'KG%s%s' % (F, G), blk, work(h, idx['w'], a, b, N, pw) if F == G == 'w' else [[0] * k] * k)
    if k <= 4:
        matrix_eq(h, 'K symmetric', K, transpose(K))


def c16_small(h):
    c16_case(h, [(m, n, c) for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)) for c in ('PINNED', 'CLAMPED', None, MIXED, OTHER, NAMES4)]
             + [(3, 3, FREE), (4, 2, FREE), (2, 4, FREE)])


def c16_large(h):
    c16_case(h, [(4, 4, FREE), (4, 5, MIXED), (5, 4, OTHER), (12, 1, FREE), (1, 12, FREE), (8, 2, NAMES4), (2, 8, 'CLAMPED'), (5, 5, 'PINNED')])


def c16_long(h):
    c16_case(h, [(8, 1, FREE), (1, 8, FREE), (8, 1, 'PINNED'), (1, 8, 'PINNED')])


def c16_laminate(h):
    """ABD read from a real unsymmetric stack."""
    mat, q, t = arbitrary_Q(h)
    L = lam(h, [h.angle('theta0'), h.angle('theta1')], mat)
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    pl = plate(h, L, a, b, NAMES4, loads3(h), 1, 1)
    K, KG = pl.calc_K_KG_ABD()
    K = rows(K)
    for p, F in enumerate('uvw'):
        for q, G in enumerate('uvw'):
            M = L.D if F == G == 'w' else (L.B if 'w' in (F, G) else L.A)
            ix = dict(u=pl.su_idx, v=pl.sv_idx, w=pl.sw_idx)
            matrix_eq(h, 'K' + F + G, [[K[p][q]]], energy(h, F, G, ix[F], ix[G], a, b, M))


# ------------------------------------------------------------------ C17
class SymDofs(list):
    """A list of degrees of freedom whose membership is symbolic: asking for one DOF decides that one only; iterating
    decides all of them, in the order given."""

    def __init__(self, flags, order=DOFS):
        list.__init__(self)
        self.flags = flags
        self.order = order

    def __contains__(self, d):
        for k in self.order:
            if k == d:
                return bool(self.flags[k])
        return False

    def _real(self):
        return [d for d in self.order if bool(self.flags[d])]

    def __iter__(self):
        return iter(self._real())

    def __len__(self):
        return len(self._real())

    def __bool__(self):
        return bool(self._real())

    def __getitem__(self, i):
        return self._real()[i]

    def __eq__(self, o):
        return self._real() == (o._real() if isinstance(o, SymDofs) else o)

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __add__(self, o):
        return self._real() + list(o)

    def __radd__(self, o):
        return list(o) + self._real()

    def __reversed__(self):
        return reversed(self._real())

    def index(self, *a):
        return self._real().index(*a)

    def count(self, d):
        return int(d in self)

    def copy(self):
        return SymDofs(self.flags, self.order)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return repr(self._real())


def edge_list(h, flags, order=DOFS):
    return SymDofs(flags, order) if h.symbolic else [d for d in order if flags[d]]


FIELD = {'u': ('TX', 'RX'), 'v': ('TY', 'RY'), 'w': ('TZ', 'RZ')}
DIRS = {'x': ('x0', 'xa'), 'y': ('y0', 'yb')}
GROUPS = [(f, d) for f in 'uvw' for d in 'xy']
RESTS = {'none': lambda e, d: False, 'all': lambda e, d: True, 'mixed': lambda e, d: d in MIXED[e], 'other': lambda e, d: d in OTHER[e]}


def bases(h, pl):
    """The retained functions of u, v, w."""
    if hasattr(pl, '_compute_constraints'):
        pl._compute_constraints()
    else:
        pl.calc_K_KG_D()
    return [[tuple(int(x) for x in ij) for ij in L] for L in (pl.su_idx, pl.sv_idx, pl.sw_idx)]


def shape_at(i, end, d):
    return bardell.value(i, Fraction(end), d)


def implies(f, ok):
    """f implies ok, for a symbolic or plain truth value f."""
    return True if ok else (f == False)


def conj(xs):
    r = True
    for x in xs:
        r = x & r if r is not True else x
    return r


def check_basis(h, label, idx, m, n, fl, full):
    h.eq(label + ': number of functions', [len(idx), len(set(idx))], [m * n] * 2, record=False)
    val, rot = FIELD[label[0]]
    conds = []
    for pos, (d, size) in enumerate((('x', m), ('y', n))):
        S = sorted({ij[pos] for ij in idx})
        for e, end in zip(DIRS[d], (-1, 1)):
            has_val = any(shape_at(i, end, 0) != 0 for i in S)
            has_rot = any(shape_at(i, end, 1) != 0 for i in S)
            conds.append(implies(fl[e][val], not has_val))
            conds.append(implies(fl[e][rot], not has_rot))
            if size >= 4 and full:
                conds.append(implies(fl[e][val] == False, has_val))
                conds.append(implies(fl[e][rot] == False, has_rot))
    h.true(label + ': edge conditions', conj(conds))
    if h.symbolic and not full:
        return


def make_flags(h, free, rest):
    fl = {}
    for e in EDGES:
        fl[e] = {}
        for d in DOFS:
            grp = [g for g in free if d in FIELD[g[0]] and e in DIRS[g[1]]]
            fl[e][d] = h.flag('%s.%s' % (e, d)) if grp else RESTS[rest](e, d)
    return fl


def c17_case(h, groups, sizes, rests):
    free = h.choice('free', groups)
    rest = h.choice('rest', rests)
    m, n = h.choice('size', sizes)
    fl = make_flags(h, free, rest)
    cons = {e: edge_list(h, fl[e]) for e in EDGES}
    P = laminate(h, D=[[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    mk = lambda m, n: bases(h, plate(h, P, 1, 2, cons, m=m, n=n))
    decoy(h, P, cons, m, n)
    B = mk(m, n)
    for f, idx in zip('uvw', B):
        check_basis(h, f, idx, m, n, fl, True)
        h.record(f, sum(1000 * i + j for i, j in idx))
    for mm, nn in ((m + 1, n), (m, n + 1)):
        for f, idx, big in zip('uvw', B, mk(mm, nn)):
            check_basis(h, f, big, mm, nn, fl, True)
            h.true('%s: basis of (%d, %d) within that of (%d, %d)' % (f, m, n, mm, nn), set(idx) <= set(big))


PAIRS = [(g, k) for i, g in enumerate(GROUPS) for k in GROUPS[i + 1:]]


def c17_pairs(h):
    c17_case(h, PAIRS, [(4, 5)], ['none', 'all'])


def c17_sizes(h):
    c17_case(h, [(g,) for g in GROUPS], [(m, n) for m in (1, 2, 3) for n in (1, 2, 3)] + [(4, 1), (1, 4), (5, 2), (7, 6)], ['none', 'mixed', 'other'])


def c17_long(h):
    c17_case(h, [(g,) for g in GROUPS], [(25, 1), (1, 25), (17, 3), (3, 17), (11, 10)], ['none', 'mixed'])


def c17_triples(h):
    c17_case(h, [g + (k,) for g in PAIRS for k in GROUPS if k > g[1]], [(5, 4)], ['none', 'all'])


# ------------------------------------------------------------------ C18
SPELL = {'lower': str.lower, 'upper': str.upper, 'title': str.title, 'mixed': lambda s: ''.join(c.upper() if i % 2 else c for i, c in enumerate(s))}
PATTERNS = [('free', 'free', 'free', 'free'), ('pinned', 'clamped', 'free', 'simply_supported'), ('fixed', 'free', 'pinned', 'clamped'),
            ('clamped', 'clamped', 'clamped', 'clamped'), ('simply_supported', 'pinned', 'fixed', 'pinned')]


def decoy(h, P, cons, m, n):
    """A plate of the same size whose edges have the same conditions in other places, set up before the one looked at."""
    if isinstance(cons, dict):
        v = [cons[e] for e in cons]
        bases(h, plate(h, P, 1, 2, dict(zip(('y0', 'yb', 'xa', 'x0'), v)), m=m, n=n))
    else:
        bases(h, plate(h, P, 1, 2, 'CLAMPED' if cons != 'CLAMPED' else 'PINNED', m=m, n=n))


def same_plate(h, label, P, one, two, m, n):
    decoy(h, P, one, m, n)
    B1 = bases(h, plate(h, P, 1, 2, one, m=m, n=n))
    decoy(h, P, two, m, n)
    B2 = bases(h, plate(h, P, 1, 2, two, m=m, n=n))
    with h.fresh():
        B3 = bases(h, plate(h, laminate(h, D=[[1, 0, 0], [0, 1, 0], [0, 0, 1]]), 1, 2, one, m=m, n=n))
    for f, x, y, z in zip('uvw', B1, B2, B3):
        h.true('%s: same functions for %s' % (label, f), x == y)
        h.true('%s: same functions for %s after other plates' % (label, f), x == z)


def c18_names(h):
    pat = h.choice('others', PATTERNS)
    e = h.choice('edge', range(4))
    name = h.choice('name', sorted(NAMED))
    sp = h.choice('spelling', sorted(SPELL))
    m, n = h.choice('size', [(4, 5), (2, 3)])
    names = list(pat)
    names[e] = name
    one = dict(zip(EDGES, names))
    two = {k: list(NAMED[v]) for k, v in one.items()}
    one[EDGES[e]] = SPELL[sp](name)
    P = laminate(h, D=[[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    same_plate(h, 'named', P, one, two, m, n)


def c18_mixed(h):
    """Some edges by name, the others by lists of degrees of freedom."""
    pat = h.choice('pattern', PATTERNS)
    named = h.choice('edges by name', range(1, 15))
    lst = {e: list(NAMED[v]) for e, v in zip(EDGES, pat)}
    sp = h.choice('spelling', sorted(SPELL))
    one = {e: SPELL[sp](v) if named >> i & 1 else list(NAMED[v]) for i, (e, v) in enumerate(zip(EDGES, pat))}
    P = laminate(h, D=[[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    same_plate(h, 'mixed', P, one, lst, 3, 4)


def c18_whole(h):
    w = h.choice('string', ['PINNED', 'CLAMPED', None])
    how = h.choice('as', ['lists', 'names', 'reversed lists'])
    m, n = h.choice('size', [(1, 1), (2, 3), (5, 4)])
    nm = 'clamped' if w == 'CLAMPED' else 'pinned'
    one = {e: nm if how == 'names' else (NAMED[nm][::-1] if how == 'reversed lists' else list(NAMED[nm])) for e in EDGES}
    P = laminate(h, D=[[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    same_plate(h, 'string', P, w, one, m, n)


def c18_order(h):
    e = h.choice('edge', EDGES)
    o = h.choice('order', [DOFS[::-1], DOFS[3:] + DOFS[:3], ('TY', 'RX', 'TZ', 'RY', 'TX', 'RZ'), ('RZ', 'TX', 'RY', 'TY', 'RX', 'TZ')])
    rest = h.choice('rest', ['none', 'mixed'])
    fl = {k: {d: h.flag('%s.%s' % (k, d)) if k == e else RESTS[rest](k, d) for d in DOFS} for k in EDGES}
    P = laminate(h, D=[[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    one = {k: edge_list(h, fl[k]) for k in EDGES}
    two = {k: edge_list(h, fl[k], o) for k in EDGES}
    same_plate(h, 'order', P, one, two, 4, 5)


def c18_matrices(h):
    one, two = h.choice('pair', [('PINNED', {e: 'Simply_Supported' for e in EDGES}), ('CLAMPED', {e: 'FIXED' for e in EDGES}),
                                 (dict(NAMES4, x0='Fixed'), {e: list(NAMED[v])[::-1] for e, v in NAMES4.items()}), (None, 'PINNED')])
    which = h.choice('matrix', ['D', 'ABD'])
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    A, B, D = symmetric3(h, 'A', (1, 4)), symmetric3(h, 'B', (1, 4)), symmetric3(h, 'D', (1, 4))
    N = loads3(h)
    P = laminate(h, A, B, D)
    got = []
    for c in (one, two):
        pl = plate(h, P, a, b, c, N, 2, 3)
        got.append(pl.calc_K_KG_D() if which == 'D' else pl.calc_K_KG_ABD())
    h.eq('K', got[0][0], got[1][0])
    h.eq('KG', got[0][1], got[1][1])


def c18_unknown(h):
    e = h.choice('edge', EDGES)
    bad = h.choice('name', ['hinged', 'pin', 'clamp', '', 'simply supported', 'PINNED ', 'freee', 'clamped,free', 'supported'])
    rest = h.choice('rest', ['pinned', 'clamped', 'free'])
    cons = dict.fromkeys(EDGES, rest)
    if h.choice('others as', ['names', 'lists']) == 'lists':
        cons = {k: list(NAMED[rest]) for k in EDGES}
    cons[e] = bad
    P = laminate(h, D=[[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    which = h.choice('matrix', ['D', 'ABD'])

    def go():
        pl = plate(h, P, 1, 2, cons, m=1, n=2)
        pl.calc_K_KG_D() if which == 'D' else pl.calc_K_KG_ABD()
    h.raises('unknown edge name %r' % bad, go, (KeyError, ValueError, TypeError))


# ------------------------------------------------------------------ C19
def c19_case(h, cases):
    m, n, cons, num = h.choice('case', cases)
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    D = symmetric3(h, 'D', (1, 4))
    N = [x * h.pos('magnitude', (1e-3, 1e3)) for x in loads3(h)]
    pl = plate(h, laminate(h, D=D), a, b, cons, N, m, n)
    silent = h.choice('silent', [True, False])
    kw = {} if num is None else dict(num_eigvalues=num)
    if not silent:
        kw['silent'] = False
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        out = pl.buckling_analysis(**kw)
    h.eq('pair returned', len(out), 2, record=False)
    vals, vecs = out
    K, KG = pl.calc_K_KG_D()
    K, KG = rows(K), rows(KG)
    N_ = m * n
    cnt = min(5 if num is None else num, N_ - 2)
    h.eq('number of pairs', [len(vals)] + list(vecs.shape), [cnt, N_, cnt])
    fs = [vals[i] for i in range(cnt)]
    X = [[vecs[r, i] for r in range(N_)] for i in range(cnt)]
    mus = h.eigs(h.arr(K), h.arr(KG))
    for i in range(cnt):
        f = fs[i]
        if isinstance(f, float) and abs(f) == float('inf'):
            continue
        kx = [sum((K[r][c] * X[i][c] for c in range(N_)), 0) for r in range(N_)]
        gx = [sum((KG[r][c] * X[i][c] for c in range(N_)), 0) * f for r in range(N_)]
        if h.symbolic:
            h.eq('K x + f KG x = 0, pair %d' % i, [p + q for p, q in zip(kx, gx)], [0] * N_, record=False)
        else:
            s = max(abs(t) for t in kx + gx) + sum(abs(K[r][c] * X[i][c]) for r in range(N_) for c in range(N_))
            h.eq('K x + f KG x = 0, pair %d' % i, [p + q for p, q in zip(kx, gx)], [0] * N_, scale=s, tol=1e-6, record=False)
    # load factors of the plate: -1/mu for mu != 0; the positive ones come from mu < 0
    f0 = fs[0]
    for j, mu in enumerate(mus):
        if h.symbolic:
            if mu < 0:
                h.true('first factor is positive when positive factors exist', f0 > 0)
                h.true('first factor is the smallest positive one', f0 <= -1 / mu)
        else:
            tiny = 1e-9 * max(abs(x) for x in mus)
            if mu < -tiny:
                h.true('first factor is positive when positive factors exist', f0 > 0)
                h.true('first factor is the smallest positive one', f0 <= -1 / mu, lambda: f0 + 1 / mu - 1e-6 * abs(f0))
    h.eq('stored factors', pl.eigenvalue, vals, record=False)
    h.eq('stored modes', pl.eigenvector, vecs, record=False)


def c19_small(h):
    c19_case(h, [(1, 3, 'PINNED', None), (3, 1, 'PINNED', 1), (3, 1, 'CLAMPED', 2), (2, 2, 'PINNED', 1), (2, 2, MIXED, 2), (2, 2, NAMES4, None), (2, 2, 'PINNED', 10),
                 (2, 3, 'PINNED', 1), (3, 2, 'CLAMPED', 3), (2, 3, OTHER, 7), (4, 2, 'PINNED', None), (3, 3, NAMES4, None), (3, 4, 'PINNED', 3)])


def c19_many(h):
    """Many pairs of one plate given in numbers; the loads' size and the spectrum are symbolic."""
    m, n, cons, num = h.choice('case', [(5, 3, 'PINNED', 13)] + ([(4, 4, NAMES4, 20), (5, 4, MIXED, 22)] if h.thorough else []))
    s = h.pos('size', (1e-3, 1e3))
    pl = plate(h, laminate(h, D=[[3, 1, 0], [1, 2, 0], [0, 0, 1]]), 2, 1, cons, [-s, 0, 0], m, n)
    vals, vecs = pl.buckling_analysis(num_eigvalues=num)
    N_ = m * n
    cnt = min(num, N_ - 2)
    h.eq('number of pairs', [len(vals)] + list(vecs.shape), [cnt, N_, cnt], record=False)
    K, KG = pl.calc_K_KG_D()
    K, KG = rows(K), rows(KG)
    for i in (0, cnt - 1):
        f = vals[i]
        if isinstance(f, float) and abs(f) == float('inf'):
            continue
        kx = [sum((K[r][c] * vecs[c, i] for c in range(N_)), 0) for r in range(N_)]
        gx = [sum((KG[r][c] * vecs[c, i] for c in range(N_)), 0) * f for r in range(N_)]
        sc = None if h.symbolic else max(abs(t) for t in kx + gx) + max(abs(K[r][c] * vecs[c, i]) for r in range(N_) for c in range(N_))
        h.eq('K x + f KG x = 0, pair %d' % i, [p + q for p, q in zip(kx, gx)], [0] * N_, scale=sc, tol=1e-6, record=False)


def c19_large(h):
    c19_case(h, [(3, 3, 'PINNED', 1), (3, 3, 'CLAMPED', 9), (4, 4, 'PINNED', None), (5, 5, 'CLAMPED', 4), (4, 3, OTHER, 6), (3, 4, 'PINNED', None), (5, 2, 'PINNED', 20)])


# ------------------------------------------------------------------ C20
def c20_case(h, analysed, cases, earlier=False):
    m, n, cons, gx, gy = h.choice('case', cases)
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    if analysed:
        D = symmetric3(h, 'D', (1, 4))
        N = loads3(h)
    else:
        D, N = [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [-1, 0, 0]
    pl = plate(h, laminate(h, D=D), a, b, cons, N, m, n)
    h.start_plots()
    kw = dict(ngridx=gx, ngridy=gy) if gx else {}
    if analysed:
        nth = h.choice('mode', [None, 0])
        if nth is not None:
            kw['nth'] = nth
        if h.choice('analysis', ['before', 'by the plot']) == 'before':
            pl.buckling_analysis(num_eigvalues=1)
    else:
        # any modes stored on the plate
        nth = h.choice('mode', [0, 1, 2])
        kw['nth'] = nth
        pl._compute_constraints() if hasattr(pl, '_compute_constraints') else pl.calc_K_KG_D()
        pl.eigenvalue = h.arr([h.real('f%d' % i, (1, 2)) for i in range(3)])
        pl.eigenvector = h.arr([[h.real('c%d_%d' % (r, i)) for i in range(3)] for r in range(m * n)])
        if earlier and h.choice('plotted before', ['nothing', 'another mode']) == 'another mode':
            pl.plot_eigenvalue(**dict(kw, nth=(nth + 1) % 3))
            h.start_plots()
    pl.plot_eigenvalue(**kw)
    calls = [c for c in h.plots() if c[0] == 'plot_surface']
    h.eq('one surface', len(calls), 1, record=False)
    X, Y, Z = [rows(t) for t in calls[0][1][:3]]
    gx, gy = gx or 20, gy or 20
    c = [pl.eigenvector[r, nth or 0] for r in range(m * n)]
    idx = [tuple(t) for t in pl.sw_idx]
    h.true('grid shape', [len(X), len(X[0])] in ([gy, gx], [gx, gy]) and [(len(M), len(M[0])) for M in (Y, Z)] == [(len(X), len(X[0]))] * 2)
    # positions as fractions of the sides
    fx = [[t / a for t in r] for r in X]
    fy = [[t / b for t in r] for r in Y]
    exact = lambda t: Fraction(t.constval()) if h.symbolic and hasattr(t, 'constval') else (Fraction(t) if not h.symbolic else t)
    xs, ys = {}, {}
    want = []
    for r in range(len(X)):
        row = []
        for k in range(len(X[0])):
            px, py = exact(fx[r][k]), exact(fy[r][k])
            if not h.symbolic:
                px, py = Fraction(round(float(px) * 10 ** 9), 10 ** 9), Fraction(round(float(py) * 10 ** 9), 10 ** 9)
            xs.setdefault(px, 0)
            ys.setdefault(py, 0)
            s = 0
            for (i, j), ci in zip(idx, c):
                s = s + num(h, shape(i, 2 * px - 1) * shape(j, 2 * py - 1)) * ci
            row.append(s)
        want.append(row)
    h.eq('grid lines', [len(xs), len(ys)], [gx, gy], record=False)
    h.true('covers the plate', min(xs) == 0 and max(xs) == 1 and min(ys) == 0 and max(ys) == 1)
    scale = None if h.symbolic else max(1e-3, max(abs(float(t)) for t in c))
    h.eq('heights', Z, want, scale=scale, record=not analysed, coef_tol=1e-9, abs_tol=1e-9)


_shape = {}


def shape(i, x):
    r = _shape.get((i, x))
    if r is None:
        r = _shape[i, x] = bardell.value(i, x)
    return r


GRIDS = [(2, 2, 'PINNED', 3, 3), (2, 2, 'PINNED', 2, 4), (3, 2, 'CLAMPED', 4, 2), (2, 3, MIXED, 3, 2), (1, 3, OTHER, 2, 5), (3, 1, NAMES4, 5, 3), (4, 4, FREE, 3, 4)]


def c20_any(h):
    c20_case(h, False, GRIDS + ([(5, 5, FREE, 9, 7), (6, 4, 'PINNED', 11, 13), (2, 2, 'PINNED', None, None)] if h.thorough else [(2, 2, 'PINNED', None, None)]))


def c20_again(h):
    c20_case(h, False, GRIDS[:6], True)


def c20_analysed(h):
    c20_case(h, True, [(2, 2, 'PINNED', 3, 3), (2, 3, 'PINNED', 2, 3), (3, 2, NAMES4, 3, 2)])


# ------------------------------------------------------------------ C31
def swap_dofs(L):
    t = {'X': 'Y', 'Y': 'X', 'Z': 'Z'}
    return [d[0] + t[d[1]] for d in L]


def swapped(cons):
    if isinstance(cons, str) or cons is None:
        return cons
    t = {'x0': 'y0', 'xa': 'yb', 'y0': 'x0', 'yb': 'xa'}
    return {t[e]: v if isinstance(v, str) else swap_dofs(v) for e, v in cons.items()}


def swap3(M):
    p = (1, 0, 2)
    return [[M[p[i]][p[j]] for j in range(3)] for i in range(3)]


def reorder(K, idx, other):
    """Rows and columns of the exchanged plate in the order of the original one."""
    pos = [other.index((j, i)) for i, j in idx]
    return [[K[r][c] for c in pos] for r in pos]


C31_CASES = [(m, n, c) for m, n in ((1, 2), (2, 1), (2, 3), (3, 2)) for c in ('PINNED', 'CLAMPED', MIXED, OTHER, NAMES4)]
C31_LARGE = [(4, 5, FREE), (5, 4, MIXED), (6, 3, OTHER), (3, 6, NAMES4), (20, 1, FREE), (1, 20, FREE)]


def c31_scale(h):
    m, n, cons = h.choice('case', C31_CASES + (C31_LARGE if h.thorough else []))
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    D = symmetric3(h, 'D', (1, 4))
    N = loads3(h)
    s, r = h.pos('s', (0.5, 2)), h.real('r', (-2, 2))
    K, KG = plate(h, laminate(h, D=D), a, b, cons, N, m, n).calc_K_KG_D()
    what = h.choice('what', ['laminate', 'loads', 'size'])
    scaled = lambda M, f: [[x * f for x in row] for row in rows(M)]
    if what == 'laminate':
        K2, G2 = plate(h, laminate(h, D=scaled(h.arr(D), s)), a, b, cons, N, m, n).calc_K_KG_D()
        matrix_eq(h, 'K of s D', K2, scaled(K, s))
        matrix_eq(h, 'KG', G2, KG)
    elif what == 'loads':
        N3 = [h.real('M' + t, (-2, 2)) for t in ('xx', 'yy', 'xy')]
        K2, G2 = plate(h, laminate(h, D=D), a, b, cons, [r * x + y for x, y in zip(N, N3)], m, n).calc_K_KG_D()
        K3, G3 = plate(h, laminate(h, D=D), a, b, cons, N3, m, n).calc_K_KG_D()
        matrix_eq(h, 'K', K2, K)
        matrix_eq(h, 'KG of r N + M', G2, [[r * x + y for x, y in zip(p, q)] for p, q in zip(rows(KG), rows(G3))])
    else:
        K2, G2 = plate(h, laminate(h, D=D), s * a, s * b, cons, N, m, n).calc_K_KG_D()
        matrix_eq(h, 's^2 K', scaled(K2, s * s), K)
        matrix_eq(h, 'KG', G2, KG)


def c31_exchange(h):
    m, n, cons = h.choice('case', C31_CASES + (C31_LARGE if h.thorough else []))
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    D = symmetric3(h, 'D', (1, 4))
    N = loads3(h)
    p1 = plate(h, laminate(h, D=D), a, b, cons, N, m, n)
    p2 = plate(h, laminate(h, D=swap3(D)), b, a, swapped(cons), [N[1], N[0], N[2]], n, m)
    K1, G1 = p1.calc_K_KG_D()
    K2, G2 = p2.calc_K_KG_D()
    i1, i2 = [tuple(t) for t in p1.sw_idx], [tuple(t) for t in p2.sw_idx]
    h.eq('same functions', sorted((j, i) for i, j in i2), sorted(i1), record=False)
    matrix_eq(h, 'K exchanged', reorder(rows(K2), i1, i2), K1)
    matrix_eq(h, 'KG exchanged', reorder(rows(G2), i1, i2), G1)


def c31_exchange_abd(h):
    m, n, cons = h.choice('case', [(1, 1, MIXED), (1, 2, NAMES4), (2, 1, OTHER), (2, 2, MIXED)] + ([(3, 2, FREE), (2, 3, OTHER), (4, 3, FREE)] if h.thorough else []))
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))
    A, B, D = symmetric3(h, 'A', (1, 4)), symmetric3(h, 'B', (1, 4)), symmetric3(h, 'D', (1, 4))
    N = loads3(h)
    p1 = plate(h, laminate(h, A, B, D), a, b, cons, N, m, n)
    p2 = plate(h, laminate(h, swap3(A), swap3(B), swap3(D)), b, a, swapped(cons), [N[1], N[0], N[2]], n, m)
    K1, G1 = p1.calc_K_KG_ABD()
    K2, G2 = p2.calc_K_KG_ABD()
    order = [('u', t) for t in p1.su_idx] + [('v', t) for t in p1.sv_idx] + [('w', t) for t in p1.sw_idx]
    other = [('v', t) for t in p2.su_idx] + [('u', t) for t in p2.sv_idx] + [('w', t) for t in p2.sw_idx]
    other = [(f, (t[1], t[0])) for f, t in other]
    h.eq('same functions', sorted((f,) + tuple(t) for f, t in other), sorted((f,) + tuple(t) for f, t in order), record=False)
    pos = [other.index((f, tuple(t))) for f, t in order]
    K2, G2 = rows(K2), rows(G2)
    matrix_eq(h, 'K exchanged', [[K2[r][c] for c in pos] for r in pos], K1)
    matrix_eq(h, 'KG exchanged', [[G2[r][c] for c in pos] for r in pos], G1)


PROPS = {
    'C15': dict(parts=dict(small=c15_small, long=c15_long, laminate=c15_laminate, medium=c15_medium, large=c15_large), thorough_parts=('large',),
                bounds=dict(quick='all a, b, D, loads; (m, n) up to (6, 5), (5, 6), (13, 2), (26, 1) and (1, 26); 7 sets of edge conditions',
                            thorough='all a, b, D, loads; also (m, n) up to (8, 8), (10, 4), (26, 2), (2, 26)')),
    'C16': dict(parts=dict(small=c16_small, long=c16_long, laminate=c16_laminate, large=c16_large), thorough_parts=('large',),
                bounds=dict(quick='all a, b, A, B, D (symmetric), loads; (m, n) up to (3, 3), (4, 2), (8, 1), (1, 8); 7 sets of edge conditions',
                            thorough='also (m, n) up to (5, 5), (12, 1), (8, 2)')),
    'C17': dict(parts=dict(pairs=c17_pairs, sizes=c17_sizes, long=c17_long, triples=c17_triples), thorough_parts=('triples',),
                bounds=dict(quick='symbolic membership of every DOF on every edge, for each pair of (displacement, direction) at once, the other DOFs all present or all absent, (m, n) = (4, 5) and one larger; single groups for 18 sizes up to (7, 6), (11, 10), (17, 3), (25, 1), (1, 25)',
                            thorough='also every triple of (displacement, direction)')),
    'C18': dict(parts=dict(names=c18_names, mixed=c18_mixed, whole=c18_whole, order=c18_order, matrices=c18_matrices, unknown=c18_unknown),
                bounds='every edge, name and 4 spellings against 5 patterns of the other edges, given by name or by list; symbolic lists (6 DOFs) on each edge in 5 orders; matrices for all a, b, A, B, D, loads at (2, 3); 9 unknown names'),
    'C19': dict(parts=dict(small=c19_small, many=c19_many, large=c19_large), thorough_parts=('large',),
                bounds=dict(quick='all a, b, D, loads and every spectrum of the pencil; m*n <= 12; num_eigvalues 1..10 and default; 13 pairs of 15 terms of a plate given in numbers', thorough='m*n <= 25'),
                assumptions=['scipy.sparse.linalg.eigsh and scipy.linalg.eigh are represented by their documented contract over a pencil with real ordered eigenvalues (K positive definite)']),
    'C20': dict(parts=dict(any=c20_any, again=c20_again, analysed=c20_analysed),
                bounds=dict(quick='all eigenvectors, a, b; modes 0..2, alone or after a plot of another mode; 8 grids up to 5 lines per direction and the default 20 x 20; (m, n) up to (4, 4)',
                            thorough='also grids 9 x 7 and 11 x 13, (m, n) up to (6, 4)')),
    'C31': dict(parts=dict(scale=c31_scale, exchange=c31_exchange, exchange_abd=c31_exchange_abd),
                bounds=dict(quick='all a, b, A, B, D, loads, scale factors; (m, n) up to (3, 2); 5 sets of edge conditions', thorough='also (m, n) up to (6, 3), (20, 1)')),
}
