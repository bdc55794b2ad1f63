"""C29, further parts: results do not depend on what was asked of a *neighbour*, an object (or call) that differs in a
single respect.  One of the two is queried first, the other afterwards; the answers of the second must be those it gives
in a fresh copy of the package, and those of the first must not change.  Results remembered under too small a key (by
angle, by name, by edge values, by rounded numbers) show up here."""
from .laminate import lam
from .optimize import fun
from .plate import laminate, plate
from .strength import symmetric3


def pair(h, base, variants, make, ask):
    """base: dict of the definition; variants: {name: definition changed in that one respect}."""
    from .misc import same_result
    which = h.choice('differs in', list(variants))
    one, two = base, variants[which]
    for k in base if isinstance(base, dict) else ():
        differ(h, base[k], two[k])
    if h.choice('first', ['base', 'neighbour']) == 'neighbour':
        one, two = two, one
    o1 = make(one)
    r1 = ask(o1)
    r2 = ask(make(two))
    again = ask(make(one))
    with h.fresh():
        w1 = ask(make(one))
    with h.fresh():
        w2 = ask(make(two))
    same_result(h, 'after its neighbour', r2, w2)
    same_result(h, 'before its neighbour', r1, w1)
    same_result(h, 'once more', again, w1)


def differ(h, x, y):
    """Where the two definitions have different numbers these are not equal (equal ones are the same definition)."""
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y):
        for p, q in zip(x, y):
            differ(h, p, q)
    elif x is not y and not any(isinstance(z, (list, tuple, dict, str, type(None))) for z in (x, y)):
        if h.symbolic and repr(x) != repr(y):
            h.assume(x != y)


def changed(base, **k):
    return dict(base, **k)


# ------------------------------------------------------------------ materials, laminates, strength
def material(h, c, al=()):
    return h.mod('composipy').OrthotropicMaterial(*c, *al, name='tape')


def material_consts(h, tag=''):
    c = [h.pos('e1' + tag, (5e4, 2e5)), h.pos('e2' + tag, (5e3, 2e4)), h.real('v12' + tag, (0.1, 0.4)), h.pos('g12' + tag, (2e3, 9e3)), h.pos('t' + tag, (0.1, 0.5))]
    h.assume(c[2] >= -0.5)
    h.assume(c[2] <= 0.5)
    h.assume(c[0] - c[2] * c[2] * c[1] > 0)
    return c


def replaced(xs, i, x):
    xs = list(xs)
    xs[i] = x
    return xs


def n_material(h):
    from .misc import frozen
    c, d = material_consts(h), material_consts(h, 'o')
    h.assume(d[0] - c[2] * c[2] * c[1] > 0)
    h.assume(c[0] - c[2] * c[2] * d[1] > 0)
    h.assume(c[0] - d[2] * d[2] * c[1] > 0)
    kind = h.choice('kind', ['orthotropic', 'isotropic'])
    if kind == 'orthotropic':
        base = dict(c=c)
        var = {n: dict(c=replaced(c, i, d[i])) for i, n in enumerate(('e1', 'e2', 'v12', 'g12', 'thickness'))}
        pair(h, base, var, lambda k: material(h, k['c']), lambda m: [frozen(m.Q_0), frozen(m.Invariants()), m.v21, m.thickness])
    else:
        base = dict(c=[c[0], c[2], c[3], c[4]])
        var = {n: dict(c=replaced(base['c'], i, x)) for i, (n, x) in enumerate((('e', d[0]), ('v', d[2]), ('g', d[3]), ('thickness', d[4])))}
        pair(h, base, var, lambda k: h.mod('composipy').IsotropicMaterial(*k['c'], name='tape'), lambda m: [frozen(m.Q_0), m.thickness])


def n_laminate(h):
    from .misc import read
    th = [h.angle('s%d' % i) for i in range(3)]
    ts = [h.pos('t%d' % i, (.1, .5)) for i in range(3)]
    C = [[150000, 10000, h.q(1, 4), 5000], [200000, 10000, h.q(1, 4), 5000], [150000, 20000, h.q(1, 4), 5000], [150000, 10000, h.q(3, 8), 5000], [150000, 10000, h.q(1, 4), 7000]]
    base = dict(s=[th[0], th[1]], m=[C[0] + [ts[0]], C[1] + [ts[1]]])
    a, b = base['m']
    var = {'angle': changed(base, s=[th[0], th[2]]), 'order of angles': changed(base, s=[th[1], th[0]]), 'order of plies': changed(base, m=[b, a]),
           'thickness': changed(base, m=[a, b[:4] + [ts[2]]]), 'e1': changed(base, m=[C[1] + [ts[0]], b]), 'e2': changed(base, m=[C[2] + [ts[0]], b]),
           'v12': changed(base, m=[C[3] + [ts[0]], b]), 'g12': changed(base, m=[C[4] + [ts[0]], b]), 'one material': changed(base, m=[a, a]),
           'a ply more': changed(base, s=base['s'] + [th[0]], m=base['m'] + [a])}
    what = h.choice('ask', ['stiffness', 'parameters', 'plies'])
    qs = {'stiffness': ['A', 'B', 'D'], 'parameters': ['xiA', 'xiD', 'z_position'], 'plies': ['Q_layup', 'T_layup']}[what]
    pair(h, base, var, lambda k: lam(h, list(k['s']), [material(h, c) for c in k['m']]), lambda L: [read(L, q) for q in qs])


def n_parameters(h):
    from .misc import read
    xa, xd = ([h.real('%s%d' % (n, i), (-.4, .4)) for i in range(5)] for n in ('xiA', 'xiD'))
    T = [h.pos('T%d' % i, (.5, 2)) for i in range(2)]
    c = [150000, 10000, h.q(1, 4), 5000, 1]
    base = dict(xiA=xa[:4], xiD=xd[:4], T=T[0], c=c)
    var = {'T': changed(base, T=T[1]), 'material': changed(base, c=[150000, 10000, h.q(1, 4), 7000, 1]), 'no xiA': changed(base, xiA=None)}
    for i in range(4):
        var['xiA%d' % i] = changed(base, xiA=replaced(base['xiA'], i, xa[4]))
        var['xiD%d' % i] = changed(base, xiD=replaced(base['xiD'], i, xd[4]))

    def make(k):
        d = {'xiD': list(k['xiD']), 'T': k['T']}
        if k['xiA'] is not None:
            d['xiA'] = list(k['xiA'])
        return lam(h, d, material(h, k['c'])), ['A', 'B', 'D', 'xiA', 'xiD'] if k['xiA'] is not None else ['D', 'xiD']
    pair(h, base, var, make, lambda o: [read(o[0], q) for q in o[1]])


def n_strength(h):
    from .misc import frozen
    N = [h.real('N%d' % i, (-100, 100)) for i in range(6)]
    M = [h.real('M%d' % i, (-100, 100)) for i in range(6)]
    base = dict(N=N, s=[0, 90], t=[h.q(1, 4), h.q(1, 2)], g=5000)
    var = {n: changed(base, N=replaced(N, i, M[i])) for i, n in enumerate(('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))}
    var.update({'angles': changed(base, s=[90, 0]), 'angle': changed(base, s=[0, 30]), 'thickness': changed(base, t=[h.q(1, 2), h.q(1, 2)]), 'material': changed(base, g=4000)})

    def make(k):
        L = lam(h, list(k['s']), [material(h, [150000, 10000, h.q(1, 4), k['g'], t]) for t in k['t']])
        return h.mod('composipy').LaminateStrength(L, *k['N'])
    pair(h, base, var, make, lambda S: [frozen(S.epsilon0()), frozen(S.calculate_strain()), frozen(S.calculate_stress())])


def n_margin(h):
    from .misc import margins
    al = [h.pos('al%d' % i, (1e3, 2e3)) for i in range(5)]
    be = [h.pos('be%d' % i, (1e5, 2e5)) for i in range(5)]
    for x, lo, hi in [(x, 1e3, 2e3) for x in al] + [(x, 1e5, 2e5) for x in be]:
        h.assume(x >= lo)
        h.assume(x <= hi)
    lam_ = h.pos('size', (1, 2))
    h.assume(lam_ >= 1)
    h.assume(lam_ <= 2)
    base = dict(al=al, F=(30, -20, 10, 4, -1, 2))
    var = {n: changed(base, al=replaced(al, i, be[i])) for i, n in enumerate(('t1', 'c1', 't2', 'c2', 's'))}
    var['loads'] = changed(base, F=(-30, 20, -10, -4, 1, -2))

    def make(k):
        L = lam(h, [0], [material(h, [150000, 10000, h.q(1, 4), 5000, h.q(1, 4)], k['al'])])
        return h.mod('composipy').LaminateStrength(L, *[lam_ * x for x in k['F']])
    pair(h, base, var, make, lambda S: margins(S, 'calculate_maxstressmargin'))


# ------------------------------------------------------------------ plates
EDGE = [{'x0': 'clamped', 'xa': 'pinned', 'y0': 'pinned', 'yb': 'free'}, {'x0': 'pinned', 'xa': 'clamped', 'y0': 'pinned', 'yb': 'free'},
        {'y0': 'clamped', 'yb': 'pinned', 'x0': 'pinned', 'xa': 'free'}, {'x0': 'clamped', 'xa': 'pinned', 'y0': 'free', 'yb': 'pinned'},
        {'x0': 'clamped', 'xa': 'pinned', 'y0': 'pinned', 'yb': 'clamped'}]
LISTS = {'x0': ['TX', 'TY', 'TZ', 'RZ'], 'xa': ['TZ'], 'y0': ['TX', 'TZ'], 'yb': ['TY']}


def n_plate(h):
    from .misc import frozen, read_plate
    a, b, F = ([h.pos('%s%d' % (n, i), (.5, 3)) for i in range(2)] for n in ('a', 'b', 'F'))
    A, B, D = symmetric3(h, 'A', (1, 4)), symmetric3(h, 'B', (.1, .2)), symmetric3(h, 'D', (1, 4))
    D2, A2, B2 = [list(r) for r in D], [list(r) for r in A], [list(r) for r in B]
    D2[0][0] = h.real('Do', (4, 6))
    A2[0][0] = h.real('Ao', (4, 6))
    B2[2][2] = h.real('Bo', (.2, .3))
    what = h.choice('ask', ['K_D', 'K_ABD', 'buckling'])
    full = what == 'K_ABD'
    m, n = (2, 2) if what == 'K_D' else (1, 2) if full else (1, 3)
    base = dict(a=a[0], b=b[0], N=[-F[0], 0, F[0] / 2], A=A, B=B, D=D, e=EDGE[0], m=m, n=n)
    var = {'a': changed(base, a=a[1]), 'b': changed(base, b=b[1]), 'a and b exchanged': changed(base, a=b[0], b=a[0]), 'Nxx': changed(base, N=[-F[1], 0, F[0] / 2]),
           'Nyy': changed(base, N=[-F[0], -F[1], F[0] / 2]), 'Nxy': changed(base, N=[-F[0], 0, -F[0] / 2]), 'D': changed(base, D=D2)}
    for i in range(1, 5):
        var['edges %d' % i] = changed(base, e=EDGE[i])
    var['edge lists'] = changed(base, e=LISTS)
    var['PINNED'] = changed(base, e='PINNED')
    if what == 'K_D':
        var.update({'m': changed(base, m=3), 'n': changed(base, n=1), 'm and n': changed(base, m=1, n=4)})
    if full:
        var.update({'A': changed(base, A=A2), 'B': changed(base, B=B2), 'm and n': changed(base, m=2, n=1)})
    if what == 'buckling':
        var.update({'m and n': changed(base, m=3, n=1)})
        for k in ('Nyy', 'D', 'edges 2', 'edges 4', 'edge lists'):
            var.pop(k)
    rd = read_plate(h)
    pair(h, base, var, lambda k: plate(h, laminate(h, k['A'], k['B'], k['D']), k['a'], k['b'], dict(k['e']) if isinstance(k['e'], dict) else k['e'], k['N'], k['m'], k['n']),
         lambda p: rd(p, what))


# ------------------------------------------------------------------ optimisation
def n_critical(h):
    """The critical factor of a panel given by lamination parameters, argument by argument."""
    a, b, T, E1, E2, G = ([h.pos('%s%d' % (n, i), hint) for i in range(2)] for n, hint in
                          (('a', (100, 900)), ('b', (100, 900)), ('T', (.5, 5)), ('E1', (1e5, 2e5)), ('E2', (5e3, 2e4)), ('G12', (2e3, 9e3))))
    x, y, F = [h.real('xi1%d' % i, (-.3, .3)) for i in range(2)], [h.real('xi3%d' % i, (0, .8)) for i in range(2)], [h.pos('F%d' % i, (.5, 2)) for i in range(2)]
    for e1 in E1:
        for e2 in E2:
            h.assume(e1 > e2)
    base = dict(a=a[0], b=b[0], T=T[0], m=1, n=3, xi1=x[0], xi3=y[0], E1=E1[0], E2=E2[0], v12=h.q(1, 4), G12=G[0], Nxx=-F[0], Nyy=0, Nxy=0, panel_constraint='PINNED')
    var = {'a': a[1], 'b': b[1], 'T': T[1], 'xi1': x[1], 'xi3': y[1], 'E1': E1[1], 'E2': E2[1], 'v12': h.q(3, 8), 'G12': G[1]}
    var = {k: changed(base, **{k: v}) for k, v in var.items()}
    var['loads'] = changed(base, Nxx=-F[0], Nyy=-F[0] / 2)
    var['direction'] = changed(base, Nxx=0, Nyy=-F[0])
    var['load'] = changed(base, Nxx=-F[1])
    var['m and n'] = changed(base, m=3, n=1)
    var['edges'] = changed(base, panel_constraint='CLAMPED')
    var['named edges'] = changed(base, panel_constraint=EDGE[0])
    what = h.choice('problem', ['max', 'min'])
    if what == 'max':
        var['penalty'] = changed(base, penalty=False)
    elif 'T' in var:
        h.assume(T[0] >= 0.01)
        h.assume(T[1] >= 0.01)

    def ask_it(k):
        k = dict(k)
        d = [k.pop('xi1'), k.pop('xi3')]
        if what == 'min':
            d = [k.pop('T')] + d
        call = pose(h, h.mod('composipy.optimize').maximize_buckling_load if what == 'max' else h.mod('composipy.optimize').minimize_panel_weight, **k)
        return [fun(call)(d)] + [[c.fun(d), c.lb, c.ub] for c in call['constraints'] if hasattr(c, 'fun')] + [len(call['constraints'])]
    pair(h, base, var, lambda k: k, ask_it)


def pose(h, f, **k):
    import contextlib
    import io
    import warnings
    log = h.start_minimize()
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        f(**k)
    return log[0]


# ------------------------------------------------------------------ text
def n_text(h):
    from .misc import read_card
    th = [h.real('s%d' % i, (-90, 90)) for i in range(4)]
    t = [h.pos('t%d' % i, (.1, 1)) for i in range(4)]
    base = dict(seq=th[:3], midi=[1, 2, 3], ti=t[:3], pid=7, z0='', sout=['YES', 'NO', 'NO'])
    var = {'angle': changed(base, seq=[th[0], th[3], th[2]]), 'order': changed(base, seq=th[2::-1]), 'material': changed(base, midi=[1, 2, 4]), 'one material': changed(base, midi=1),
           'thickness': changed(base, ti=[t[0], t[1], t[3]]), 'one thickness': changed(base, ti=t[0]), 'pid': changed(base, pid=8), 'z0': changed(base, z0=2.5),
           'outputs': changed(base, sout=['NO', 'NO', 'YES']), 'FIBER': changed(base, sout='FIBER'), 'a ply less': changed(base, seq=th[:2], midi=[1, 2], ti=t[:2], sout=['YES', 'NO'])}

    def ask(k):
        n = len(k['seq'])
        g = {a: list(v) if isinstance(v, list) else v for a, v in k.items()}
        card = read_card(h, h.mod('composipy.nastranapi').build_pcomp(g['seq'], g['midi'], g['ti'], pid=g['pid'], z0=g['z0'], sout=g['sout']), n)
        if card is None:
            return ['unreadable']
        return [[str(card[0])], [str(card[1])]] + [[str(f[0]), h.field(f[1]), h.field(f[2]), str(f[3])] for f in card[2]]
    pair(h, base, var, lambda k: k, ask)


def n_sequence(h):
    base = '[0/(45/-45)_2/90]s'
    var = {k: k for k in ('[0/(45/-45)_2/90]', '[0/(45/-45)_3/90]s', '[0/(45/30)_2/90]s', '[0_2/(45/-45)_2/90]s', '[90/(45/-45)_2/0]s', '[0/45/-45/90]s')}
    pair(h, base, var, lambda k: k, lambda k: [list(h.mod('composipy.nastranapi').build_sequence(k))])


PARTS = dict(n_material=n_material, n_laminate=n_laminate, n_parameters=n_parameters, n_strength=n_strength, n_margin=n_margin, n_plate=n_plate, n_critical=n_critical,
             n_text=n_text, n_sequence=n_sequence)
