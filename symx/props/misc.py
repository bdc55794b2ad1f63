"""C25-C29: Nastran text, constructors, equality, histories."""
from itertools import product

from .laminate import arbitrary_Q, consts, lam
from .plate import plate, laminate, loads3, rows, symmetric3
from .neighbours import PARTS as NEIGHBOURS
from .strength import strength


def conj(xs):
    r = True
    for x in xs:
        r = x if r is True else (r & x if x is not True else r)
        if r is False:
            return False
    return r


def neg(x):
    return (not x) if isinstance(x, bool) or type(x).__module__ == 'numpy' else ~x


# ------------------------------------------------------------------ C25
class Names:
    """Numerals written in the string, all different, each standing for a symbolic value."""
    ANG = ['45', '11.25', '7', '62.5', '30', '8.125', '75', '15.5', '22', '3.75', '52', '81.5']
    ONE = ['2', '3', '4', '5', '6', '8', '9']
    TWO = ['12', '13', '14', '16', '17']

    def __init__(self, h, hi=3):
        self.h, self.hi, self.a, self.k, self.t = h, hi, 0, 0, 0

    def angle(self, signed):
        i, self.a = self.a, self.a + 1
        v = self.h.pos('angle%d' % i, (1, 90))
        txt = self.h.literal(self.ANG[i], v)
        return ('-' + txt, -v) if signed else (txt, v)

    def count(self):
        i, self.k = self.k, self.k + 1
        v = self.h.int_('times%d' % i, 1, self.hi)
        return self.h.literal(self.ONE[i], v), v

    def two(self):
        i, self.t = self.t, self.t + 1
        v = self.h.int_('many%d' % i, 10, 12)
        return self.h.literal(self.TWO[i], v), v


def unit(nm, kind):
    """(text, plies) of one unit; kind = (pm, sub, signed)."""
    pm, sub, signed = kind
    txt, ang = nm.angle(signed)
    n = 1
    if sub:
        s, n = nm.two() if sub == 'two' else nm.count()
        txt += '_{%s}' % s if sub in ('brace', 'two') else '_' + s
    n = int(n)
    if pm:
        return '\\pm' + txt, [ang if i % 2 == 0 else -ang for i in range(n)]
    return txt, [ang] * n


UNITS = [(pm, sub, sg) for pm in (0, 1) for sub in ('', 'bare', 'brace') for sg in (0, 1)]
INNER = [[(0, '', 0)], [(1, 'bare', 0)], [(0, '', 1), (0, '', 0)], [(1, 'brace', 0), (0, '', 1)], [(0, 'bare', 0), (1, '', 0), (0, '', 0)]]


def build(h, nm, el):
    """el: ('u', kind) or ('b', kinds, brace)."""
    if el[0] == 'u':
        return unit(nm, el[1])
    us = [unit(nm, k) for k in el[1]]
    s, k = nm.two() if el[2] == 'two' else nm.count()
    k = int(k)
    return '(' + '/'.join(u[0] for u in us) + ')' + ('_{%s}' % s if el[2] in ('brace', 'two') else '_' + s), [p for u in us for p in u[1]] * k


def c25_case(h, els, ends=('', 's', 'S'), hi=3):
    nm = Names(h, hi)
    parts = [build(h, nm, e) for e in els]
    sym = h.choice('end', ends)
    want = [p for t, ps in parts for p in ps]
    got = h.mod('composipy.nastranapi').build_sequence('[' + '/'.join(t for t, ps in parts) + ']' + sym)
    h.eq('plies', list(got), want + want[::-1] if sym else want)


ALL = [('u', k) for k in UNITS] + [('b', k, f) for k in INNER for f in ('bare', 'brace')]
FEW = [('u', (0, '', 1)), ('u', (1, 'bare', 0)), ('u', (0, 'brace', 0)), ('b', INNER[0], 'brace'), ('b', INNER[3], 'bare')]


def c25_one(h):
    c25_case(h, [h.choice('element', ALL)])


def c25_two(h):
    c25_case(h, [h.choice('element %d' % i, ALL) for i in range(2)], ('', 's'), 3 if h.thorough else 2)


def c25_three(h):
    c25_case(h, [h.choice('element %d' % i, FEW) for i in range(3)], ('', 'S'), 3 if h.thorough else 2)


def c25_digits(h):
    """Subscripts of two digits, angles of zero."""
    c25_case(h, [h.choice('element', [('u', (0, 'two', 0)), ('u', (1, 'two', 1)), ('b', INNER[2], 'two')])])


def c25_zero(h):
    got = h.mod('composipy.nastranapi').build_sequence('[0/\\pm0_2/(0/90)_2]s')
    h.eq('plies', [float(x) for x in got], [0.0, 0, 0, 0, 90, 0, 90, 90, 0, 90, 0, 0, 0, 0])


def c25_four(h):
    c25_case(h, [h.choice('element %d' % i, FEW) for i in range(4)], ('', 's'))


# ------------------------------------------------------------------ C26
def read_card(h, text, N):
    """Fields of the card: (pid, z0, rows of plies)."""
    lines = text.split('\n')
    while lines and not lines[-1].strip():
        lines.pop()
    head = [f.strip() for f in lines[0].split(',')]
    if head[0] != 'PCOMP' or len(lines) != 1 + (N + 1) // 2 or len(head) < 4 or any(head[3:-1]) or head[-1] != '+':
        h.fail('header or number of lines: %r' % text[:80])
        return None
    plies = []
    for k, ln in enumerate(lines[1:]):
        f = [x.strip() for x in ln.split(',')]
        n = 2 if 2 * k + 1 < N else 1
        if f[0] != '+' or len(f) not in (1 + 4 * n, 2 + 4 * n) or (len(f) == 2 + 4 * n and f[-1] not in ('', '+')):
            h.fail('continuation line %r' % ln[:80])
            return None
        if k + 1 < len(lines) - 1 and (len(f) != 2 + 4 * n or f[-1] != '+'):
            h.fail('continuation line without its marker')
            return None
        for i in range(n):
            plies.append(f[1 + 4 * i:5 + 4 * i])
    return head[1], head[2], plies


def c26_case(h, N, lists, container):
    th = [h.real('theta%d' % i, (-90, 90)) for i in range(N)]
    mid = [h.int_('mid%d' % i, 1, 99999) for i in range(N)] if lists['midi'] else h.int_('mid', 1, 99999)
    ti = [h.pos('t%d' % i, (.1, 1)) for i in range(N)] if lists['ti'] else h.pos('t', (.1, 1))
    kw = {}
    so = lists['sout']
    if so == 'default':
        want = ['YES' if i in (0, N - 1) else 'NO' for i in range(N)]
    elif so == 'list':
        want = ['YES' if (i * 5 + N) % 3 else 'NO' for i in range(N)]
        kw['sout'] = container(want)
    else:
        kw['sout'] = so
        want = ['YES' if so == 'YES' or (so == 'FIBER' and i in (0, N - 1)) else 'NO' for i in range(N)]
    if lists['pid']:
        kw['pid'] = h.int_('pid', 1, 99999)
        kw['z0'] = h.real('z0', (-1, 1))
    args = (container(th), container(mid) if lists['midi'] else mid, container(ti) if lists['ti'] else ti)
    card = read_card(h, h.mod('composipy.nastranapi').build_pcomp(*args, **kw), N)
    if card is None:
        return
    h.eq('pid', h.field(card[0]), kw.get('pid', 1), tol=1e-12)
    if 'z0' in kw:
        h.eq('z0', h.field(card[1]), kw['z0'], tol=1e-12)
    else:
        h.eq('z0', card[1], '')
    for i, f in enumerate(card[2]):
        h.eq('material %d' % i, h.field(f[0]), mid[i] if lists['midi'] else mid, tol=1e-12)
        h.eq('thickness %d' % i, h.field(f[1]), ti[i] if lists['ti'] else ti, tol=1e-12)
        h.eq('angle %d' % i, h.field(f[2]), th[i], tol=1e-12)
        h.eq('output %d' % i, f[3], want[i])


def c26(h):
    N = h.choice('plies', list(range(1, 13 if h.thorough else 8)))
    lists = dict(midi=h.choice('midi', [0, 1]), ti=h.choice('ti', [0, 1]), pid=h.choice('pid', [0, 1]),
                 sout=h.choice('sout', ['default', 'FIBER', 'YES', 'NO', 'list']))
    c26_case(h, N, lists, h.choice('container', [list, tuple]))


def c26_wrong(h):
    N = h.choice('plies', [1, 2, 3, 4, 5])
    which = h.choice('which', ['midi', 'ti', 'sout'])
    bad = h.choice('length', [k for k in range(0, 8)])
    if bad == N:
        return h.eq('length', bad, N)
    seq = [h.real('theta%d' % i, (-90, 90)) for i in range(N)]
    a = dict(midi=7, ti=0.5, sout='NO')
    a[which] = [3] * bad if which != 'sout' else ['NO'] * bad
    h.raises('%s of length %d for %d plies' % (which, bad, N), lambda: h.mod('composipy.nastranapi').build_pcomp(seq, **a), ValueError)


def c26_bad_sout(h):
    h.raises('unknown output request', lambda: h.mod('composipy.nastranapi').build_pcomp([0, 90, 0], 1, .5, sout=h.choice('sout', ['MAYBE!', '', None, 5])), ValueError)


def c26_from_string(h):
    """The two functions together: a stacking string becomes a card with its plies."""
    na = h.mod('composipy.nastranapi')
    nm = Names(h)
    parts = [build(h, nm, h.choice('element %d' % i, FEW)) for i in range(2)]
    seq = na.build_sequence('[' + '/'.join(t for t, _ in parts) + ']s')
    want = [p for _, ps in parts for p in ps]
    want = want + want[::-1]
    card = read_card(h, na.build_pcomp(seq, 1, 0.25), len(want))
    if card is not None:
        h.eq('angles', [h.field(f[2]) for f in card[2]], want, tol=1e-12)


# ------------------------------------------------------------------ C27
GOOD = {
    'OrthotropicMaterial': dict(e1=1.5e5, e2=1e4, v12=0.25, g12=5e3, thickness=0.25, t1=1500.0, c1=1200.0, t2=50.0, c2=200.0, s=70.0),
    'IsotropicMaterial': dict(e=7e4, v=0.25, g=2.8e4, thickness=1.5, t=300.0, c=250.0, s=150.0),
    'PlateStructure': dict(a=400.0, b=300.0, m=4, n=3),
}
WHOLE = ('m', 'n')
OPTIONAL = ('t1', 'c1', 't2', 'c2', 's', 't', 'c')


def construct(h, cls, args):
    C = getattr(h.mod('composipy'), cls)
    if cls == 'PlateStructure':
        m = h.mod('composipy').OrthotropicMaterial(150000.0, 10000.0, 0.25, 5000.0, 0.25)
        return C(lam(h, [0, 90], m), **args)
    return C(**args)


def inside(name, x, strict):
    """Truth of 'x is a (finite) number (strictly) within the documented range'."""
    lo, hi = (-0.5, 0.5) if name in ('v12', 'v') else ((1, None) if name in WHOLE else (0, None))
    big = 1.7976931348623157e308
    c = [x >= lo, x <= hi] if hi is not None and not strict else ([x > lo, x < hi] if hi is not None else
                                                                 [x >= lo] if not strict or name in WHOLE else [x > lo])
    if strict:
        c.append(x <= big)
    if name in WHOLE:
        c.append(x.is_integer())
    return conj(c)


def c27_params(h, cls, names):
    args = dict(GOOD[cls])
    xs = {n: h.fp(n) for n in names}
    args.update(xs)
    err = None
    try:
        obj = construct(h, cls, args)
    except Exception as e:
        err = e
    if err is None:
        h.eq('outcome', 'accepted', 'accepted')
        for n in names:
            h.true('%s accepted only within its range' % n, inside(n, xs[n], False))
            h.true('%s stored unchanged' % n, getattr(obj, n) == xs[n])
            if n in WHOLE:
                h.true('%s is an int' % n, type(getattr(obj, n)) is int or getattr(getattr(obj, n), 'isint', False))
        for n, v in GOOD[cls].items():
            if n not in xs:
                h.true('%s stored unchanged' % n, getattr(obj, n) == v)
    else:
        h.eq('outcome', 'rejected', 'rejected')
        h.true('rejected though strictly within the range', neg(conj([inside(n, xs[n], True) for n in names])))
        if len(names) == 1 and not isinstance(err, ValueError):
            x = xs[names[0]]
            h.true('NaN raises ValueError', x == x)


def c27_part(cls):
    def f(h):
        c27_params(h, cls, [h.choice('parameter', list(GOOD[cls]))])
    f.__name__ = 'c27_' + cls
    return f


def c27_pairs(cls):
    def f(h):
        ns = list(GOOD[cls])
        c27_params(h, cls, list(h.choice('parameters', [(x, y) for i, x in enumerate(ns) for y in ns[i + 1:]])))
    f.__name__ = 'c27_pairs_' + cls
    return f


class Thing:
    pass


def c27_notnumber(h):
    cls = h.choice('class', list(GOOD))
    name = h.choice('parameter', [(c, n) for c in GOOD for n in GOOD[c] if c == cls])[1]
    val = h.choice('value', ['abc', '', [1.0], {}, 1j, Thing()] + ([] if name in OPTIONAL else [None]))
    h.raises('%s=%r' % (name, val), lambda: construct(h, cls, dict(GOOD[cls], **{name: val})), ValueError)


def c27_property(h):
    bad = h.choice('value', [None, 3.0, 'abc', [0, 90], 'material'])
    if bad == 'material':
        bad = h.mod('composipy').OrthotropicMaterial(150000.0, 10000.0, 0.25, 5000.0, 0.25)
    h.raises('dproperty=%s' % type(bad).__name__, lambda: h.mod('composipy').PlateStructure(bad, 100.0, 100.0), ValueError)


# ------------------------------------------------------------------ C28
ORTHO = list(GOOD['OrthotropicMaterial'])
ISO = list(GOOD['IsotropicMaterial'])


def material(h, cls, tag, hint=None):
    names = ORTHO if cls == 'OrthotropicMaterial' else ISO
    vals = []
    for n in names:
        if n in ('v12', 'v'):
            v = h.real(n + tag, (-.4, .4))
            h.assume(v >= -0.5)
            h.assume(v <= 0.5)
        else:
            v = h.pos(n + tag, (1, 3))
        vals.append(v)
    return getattr(h.mod('composipy'), cls)(*vals, name=h.choice('name' + tag, [None, 'P'])), vals


def truth(x):
    return bool(x)


def c28_materials(h):
    cls = h.choice('class', ['OrthotropicMaterial', 'IsotropicMaterial'])
    (p, x), (q, y) = material(h, cls, 'p'), material(h, cls, 'q')
    eq = truth(p == q)
    h.eq('symmetric', truth(q == p), eq)
    h.eq('!=', truth(p != q), not eq)
    same = conj([a == b for a, b in zip(x, y)])
    h.true('equal exactly when the constants are', same if eq else neg(same))


def c28_same_material(h):
    cls = h.choice('class', ['OrthotropicMaterial', 'IsotropicMaterial'])
    p, x = material(h, cls, 'p')
    q = getattr(h.mod('composipy'), cls)(*x, name='another')
    h.true('same constants, other name', truth(p == q) and truth(q == p) and not truth(p != q))
    h.true('itself', truth(p == p))


def same_definition(h, d1, d2):
    """Solver-decided: the two definitions agree entry by entry."""
    if len(d1) != len(d2):
        return False
    return all(h.valid(a == b) for a, b in zip(d1, d2))


def lam_case(h, N1, N2, shared):
    m1, x1 = material(h, 'OrthotropicMaterial', 'p') if not shared else (None, None)
    comp = h.mod('composipy')
    th1 = [h.angle('s%d' % i) for i in range(N1)]
    th2 = [h.angle('r%d' % i) for i in range(N2)]
    if shared:
        c = consts(h, '')
        m1 = comp.OrthotropicMaterial(*c)
        m2 = comp.OrthotropicMaterial(*c)
        x1 = x2 = []
    else:
        m2, x2 = material(h, 'OrthotropicMaterial', 'q')
    return lam(h, th1, [m1] * N1), lam(h, th2, [m2] * N2), th1, th2, x1, x2


def compare(h, L1, L2, def1, def2, scale=None):
    eq = truth(L1 == L2)
    h.eq('symmetric', truth(L2 == L1), eq)
    h.eq('!=', truth(L1 != L2), not eq)
    if eq:
        if not same_definition(h, def1, def2):
            h.eq('equal laminates have the same stiffness', L1.ABD, L2.ABD)
    return eq


def c28_stackings(h):
    """Angles and stacking lengths differ, material built twice from the same constants."""
    N1, N2 = h.choice('lengths', [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)])
    L1, L2, t1, t2, x1, x2 = lam_case(h, N1, N2, True)
    eq = compare(h, L1, L2, t1, t2)
    if not eq and N1 == N2:
        h.true('unequal only when some angle differs', neg(conj([a == b for a, b in zip(t1, t2)])))
    if N1 != N2:
        h.eq('different numbers of plies', eq, False)


def c28_long(h):
    """Long laminates that differ in one angle, one ply material, or by one ply more."""
    comp = h.mod('composipy')
    N = h.choice('plies', [5, 9, 17, 33])
    k = h.choice('where', [0, N // 2, N - 2, N - 1])
    how = h.choice('differ in', ['angle', 'material', 'length'])
    th = [(30 * i) % 180 - 90 for i in range(N)]
    c = consts(h, '')
    base = [comp.OrthotropicMaterial(*c) for _ in range(N)]
    t1, t2, p1, p2 = list(th), list(th), list(base), [comp.OrthotropicMaterial(*c) for _ in range(N)]
    d1, d2 = [], []
    if how == 'angle':
        t1[k], t2[k] = h.angle('s'), h.angle('r')
        d1, d2 = [t1[k]], [t2[k]]
    elif how == 'material':
        (p1[k], d1), (p2[k], d2) = material(h, 'OrthotropicMaterial', 'p'), material(h, 'OrthotropicMaterial', 'q')
    else:
        t2.insert(k, h.angle('r'))
        p2.insert(k, base[0])
    L1, L2 = lam(h, t1, p1), lam(h, t2, p2)
    if how == 'length':
        h.eq('different numbers of plies', [truth(L1 == L2), truth(L2 == L1)], [False, False])
        return
    eq = compare(h, L1, L2, d1, d2)
    if not eq:
        h.true('unequal only when the definitions differ', neg(conj([a == b for a, b in zip(d1, d2)])))


def c28_plies(h):
    """The same angles, ply materials differ (one or several of them)."""
    comp = h.mod('composipy')
    N = h.choice('plies', [1, 2])
    th = [h.angle('s%d' % i) for i in range(N)]
    k = h.choice('which', list(range(N)))
    c = consts(h, '')
    base = [comp.OrthotropicMaterial(*c) for _ in range(N)]
    (p, x), (q, y) = material(h, 'OrthotropicMaterial', 'p'), material(h, 'OrthotropicMaterial', 'q')
    P, Q = list(base), [comp.OrthotropicMaterial(*c) for _ in range(N)]
    P[k], Q[k] = p, q
    eq = compare(h, lam(h, th, P), lam(h, list(th), Q), x, y)
    if not eq:
        h.true('unequal only when some constant differs', neg(conj([a == b for a, b in zip(x, y)])))


def lp(h, tag, keys):
    d = {}
    for k in ('xiA', 'xiB', 'xiD'):
        if k in keys:
            d[k] = [h.real('%s%d%s' % (k, i, tag), (-.9, .9)) for i in range(4)]
    d['T'] = h.pos('T' + tag, (1, 2))
    return d


def flat_lp(d):
    return [x for k in sorted(d) for x in (d[k] if isinstance(d[k], list) else [d[k]])]


KEYS = [('xiD',), ('xiA', 'xiD'), ('xiA', 'xiB', 'xiD')]


def c28_lamination(h):
    """Definitions by lamination parameters: parameters and thickness differ, or the material does."""
    comp = h.mod('composipy')
    k1, k2 = h.choice('keys', [(a, b) for a in KEYS for b in KEYS if a == b or 'xiB' not in a + b])
    d1, d2 = lp(h, 'p', k1), lp(h, 'q', k2)
    c = consts(h, '')
    L1 = lam(h, d1, comp.OrthotropicMaterial(*c))
    L2 = lam(h, d2, comp.OrthotropicMaterial(*c))
    f1, f2 = flat_lp(d1), flat_lp(d2)
    eq = compare(h, L1, L2, f1, f2 if k1 == k2 else f2 + [0] * 99)
    if k1 == k2 and not eq:
        h.true('unequal only when some parameter differs', neg(conj([a == b for a, b in zip(f1, f2)])))


def c28_lamination_material(h):
    (p, x), (q, y) = material(h, 'OrthotropicMaterial', 'p'), material(h, 'OrthotropicMaterial', 'q')
    d = lp(h, '', ('xiA', 'xiD'))
    eq = compare(h, lam(h, d, p), lam(h, {k: list(v) if isinstance(v, list) else v for k, v in d.items()}, q), x, y)
    if not eq:
        h.true('unequal only when some constant differs', neg(conj([a == b for a, b in zip(x, y)])))


def c28_mixed(h):
    comp = h.mod('composipy')
    m = comp.OrthotropicMaterial(*consts(h, ''))
    L1 = lam(h, lp(h, '', h.choice('keys', KEYS)), m)
    L2 = lam(h, [h.angle('s%d' % i) for i in range(h.choice('plies', [0, 1, 2]))], m)
    if compare(h, L1, L2, [0], []):
        h.eq('a stacking without plies is not a laminate', True, False)


# ------------------------------------------------------------------ C29
def frozen(x):
    """A plain copy of a query result (numbers only), made at once."""
    if callable(x) and type(x).__name__ == 'function':
        return frozen(x())
    if hasattr(x, 'columns') and hasattr(x, 'iloc'):
        return [[str(c) for c in x.columns]] + [list(x[c].tolist()) for c in x.columns]
    if hasattr(x, 'tolist'):
        y = x.tolist()
        return frozen(y) if isinstance(y, list) else y
    if isinstance(x, (list, tuple)):
        return [frozen(y) for y in x]
    return x


def leaves(x):
    if isinstance(x, list):
        out = []
        for y in x:
            out.extend(leaves(y))
        return out
    return [x]


def structure(x):
    return [structure(y) for y in x] if isinstance(x, list) else 0


def same_result(h, label, got, want):
    if str(structure(got)) != str(structure(want)):
        return h.fail(label + ': other shape')
    g, w = leaves(got), leaves(want)
    for i, (a, b) in enumerate(zip(g, w)):
        if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
            h.eq(label, a, b, record=False)
    num = [(a, b) for a, b in zip(g, w) if not (isinstance(a, str) or a is None)]
    if num:
        h.eq(label, [a for a, _ in num], [b for _, b in num], record=False)


LQ = ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'z_position', 'Q_layup', 'T_layup', '__repr__']
LPQ = ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', '__repr__']


def read(obj, q):
    r = getattr(obj, q)
    return frozen(r() if callable(r) else r)


def text(x):
    return repr(x)


def history(h, make, queries, length, other=None, call=read, brief={}):
    """Queries chosen one after another on one object (and on another object in between); each result is compared with
    the same query on a fresh object of a fresh copy of the package."""
    obj, given = make()
    before = frozen(given)
    oth = other()[0] if other is not None else None
    seen = []
    for k in range(length):
        q = h.choice('query %d' % k, queries)
        if oth is not None:
            call(oth, brief.get(q, q))
        seen.append((q, call(obj, q)))
    for k, (q, r) in enumerate(seen):
        with h.fresh():
            ref = call(make()[0], q)
        same_result(h, 'query %d (%s)' % (k, q), r, ref)
    same_result(h, 'inputs unchanged', frozen(given), before)
    h.record('length', [len(seen)])


def lam_inputs(h, tag):
    ths = [h.angle('s%d%s' % (i, tag)) for i in range(2)]
    ts = [h.pos('t%d%s' % (i, tag), (.1, .5)) for i in range(2)]
    return ths, ts


def make_laminate(h, case, tag=''):
    ths, ts = lam_inputs(h, tag)
    xi = {k: [h.real('%s%d%s' % (k, i, tag), (-.5, .5)) for i in range(4)] for k in ('xiA', 'xiD')}
    T = h.pos('T' + tag, (1, 2))

    def make():
        M = h.mod('composipy').OrthotropicMaterial
        ms = [M(150000, 10000, h.q(1, 4), 5000, t) for t in ts]
        P = h.mod('composipy').LaminateProperty
        if case == 'stack':
            s = list(ths)
            return P(s, ms), (s, ts)
        if case == 'one':
            s = tuple(ths)
            return P(s, ms[0]), (s,)
        if case == 'array':
            s = h.arr(ths)
            return P(s, ms), (s,)
        d = {k: list(v) for k, v in xi.items() if k in case}
        d['T'] = T
        return P(d, ms[0]), [d[k] for k in sorted(d)]
    return make


def c29_laminate(h):
    case = h.choice('definition', ['stack', 'array', 'one', ('xiA', 'xiD'), ('xiD',)])
    dic = isinstance(case, tuple)
    with_other = h.choice('other', [0, 1]) if case in ('stack', ('xiA', 'xiD')) else 0
    history(h, make_laminate(h, case), LPQ if dic else LQ, 3 if h.thorough and not with_other else 2,
            make_laminate(h, case, 'o') if with_other else None)


SQ = ['epsilon0', 'calculate_strain', 'calculate_stress', 'laminate.ABD', 'laminate.Q_layup', 'laminate.T_layup', 'laminate.z_position']


def read2(obj, q):
    return read(obj.dproperty, q[9:]) if q.startswith('laminate.') else read(obj, q)


def make_strength(h, tag=''):
    mk = make_laminate(h, 'stack', tag)
    N = [h.real('N%d%s' % (i, tag), (-100, 100)) for i in range(6)]

    def make():
        L, given = mk()
        S = h.mod('composipy').LaminateStrength(L, *N)
        return S, list(given) + [[S.Nxx, S.Nyy, S.Nxy, S.Mxx, S.Myy, S.Mxy]]
    return make


def c29_strength(h):
    history(h, make_strength(h), SQ, 2, make_strength(h, 'o') if h.choice('other', [0, 1]) else None, read2)


MQ = ['calculate_maxstressmargin', 'calculate_stress', 'calculate_strain', 'epsilon0']


def make_margin(h, tag=''):
    """Signs of the stresses fixed by the load pattern; its size and the allowables are free."""
    al = []
    for k in range(2):
        row = []
        for i in range(5):
            s = 10 ** (3 + 4 * ((i // 2 + k + (tag != '')) % 3))
            x = h.pos('al%d_%d%s' % (k, i, tag), (s, 2 * s))
            h.assume(x >= s)
            h.assume(x <= 2 * s)
            row.append(x)
        al.append(row)
    lam_ = h.pos('size' + tag, (1, 10))
    F = [lam_ * x for x in ((30, -20, 10, 4, -1, 2) if not tag else (-7, 3, 11, 0, 1, -2))]

    def make():
        M = h.mod('composipy').OrthotropicMaterial
        ms = [M(150000, 10000, h.q(1, 4), 5000, h.q(1, 4), *a) for a in al]
        L = h.mod('composipy').LaminateProperty([0, 90], ms)
        S = h.mod('composipy').LaminateStrength(L, *F)
        return S, [[S.Nxx, S.Nyy, S.Nxy, S.Mxx, S.Myy, S.Mxy], [[m.t1, m.c1, m.t2, m.c2, m.s] for m in ms], L.stacking]
    return make


def margins(obj, q):
    r = getattr(obj, q)()
    if q == 'calculate_maxstressmargin':
        return [frozen(r[c].tolist()) for c in r.columns if 'margin' in str(c).lower()]
    return frozen(r)


def c29_margin(h):
    history(h, make_margin(h), MQ, 2, make_margin(h, 'o') if h.choice('other', [0, 1]) else None, margins)


def read_plate(h):
    def call(obj, q):
        if q == 'buckling':
            return frozen(obj.buckling_analysis()[0])
        if q == 'buckling 1':
            return frozen(obj.buckling_analysis(num_eigvalues=1)[0])
        if q == 'plot':
            h.start_plots()
            obj.plot_eigenvalue(ngridx=2, ngridy=3)
            c = [c for c in h.plots() if c[0] == 'plot_surface'][-1]
            X, Y, Z = [frozen(t) for t in c[1][:3]]
            return [X, Y, [[z * z for z in r] for r in Z]]
        r = [frozen(t) for t in (obj.calc_K_KG_D() if q == 'K_D' else obj.calc_K_KG_ABD())]
        return r + [[list(t) for t in obj.sw_idx]]
    return call


CONS = {'default': None, 'PINNED': 'PINNED', 'names': {'x0': 'clamped', 'xa': 'PINNED', 'y0': 'free', 'yb': 'Fixed'},
        'lists': {'x0': ['TX', 'TZ', 'RZ'], 'xa': ['TY', 'RZ'], 'y0': ['TZ', 'RZ', 'TX'], 'yb': ['TY', 'RY']}}


def make_plate(h, which, m, n, tag=''):
    a, b = h.pos('a' + tag, (0.5, 3)), h.pos('b' + tag, (0.5, 3))
    A, B, D = symmetric3(h, 'A' + tag, (1, 4)), symmetric3(h, 'B' + tag, (.1, .2)), symmetric3(h, 'D' + tag, (1, 4))
    N = [-1, h.q(1, 2), h.q(1, 4)]
    s = h.pos('size' + tag, (1, 2))

    def make():
        c = CONS[which]
        if isinstance(c, dict):
            c = {k: list(v) if isinstance(v, list) else v for k, v in c.items()}
        pl = plate(h, laminate(h, A, B, D), a, b, c, [s * x for x in N], m, n)
        return pl, [lambda: [c[k] if isinstance(c, dict) else c for k in ('x0', 'xa', 'y0', 'yb')], [pl.Nxx, pl.Nyy, pl.Nxy, pl.a, pl.b, pl.m, pl.n]]
    return make


PQ = ['K_D', 'K_ABD', 'buckling', 'buckling 1', 'plot']


def c29_plate(h):
    """Interleaved with queries of a plate of other size, edges and laminate."""
    which, m, n, oth = h.choice('case', [('default', 1, 3, None), ('lists', 3, 1, None), ('names', 1, 3, ('default', 2, 2)),
                                         ('PINNED', 3, 1, ('lists', 1, 4)), ('default', 3, 1, ('default', 2, 2)), ('PINNED', 1, 5, None)])
    history(h, make_plate(h, which, m, n), PQ, 3 if h.thorough and oth is None else 2,
            None if oth is None else make_plate(h, *oth, tag='o'), read_plate(h), {'plot': 'buckling 1', 'buckling': 'buckling 1'})


def c29_shared(h):
    """One laminate read directly, by a strength object and by a plate."""
    mk = make_laminate(h, 'stack')
    N = [h.real('N%d' % i, (-100, 100)) for i in range(6)]
    a, b = h.pos('a', (0.5, 3)), h.pos('b', (0.5, 3))

    def make():
        L, given = mk()
        pl = plate(h, L, a, b, 'PINNED', N[:3], 1, 2)
        return (L, h.mod('composipy').LaminateStrength(L, *N), pl), given

    def call(o, q):
        L, S, pl = o
        if q == 'K':
            return [frozen(t) for t in pl.calc_K_KG_ABD()]
        return read(S, q) if q in SQ else read(L, q)
    history(h, make, ['A', 'B', 'D', 'ABD', 'Q_layup', 'z_position', 'xiD', 'epsilon0', 'calculate_strain', 'calculate_stress', 'K'], 2, None, call)


def c29_functions(h):
    """Table look-ups and text functions do not remember earlier calls."""
    na = h.mod('composipy.nastranapi')
    th = [h.real('theta%d' % i, (-90, 90)) for i in range(3)]
    t1, t2 = h.pos('t1', (.1, 1)), h.pos('t2', (.1, 1))
    seq, tl, ml, so = list(th), [t1, t2, t1], [1, 2, 3], ['YES', 'NO', 'NO']
    for k in range(2):
        kind = h.choice('call %d' % k, ['lists', 'scalars', 'yes', 'string'])
        if kind == 'string':
            h.eq('sequence', na.build_sequence('[0/(45/-45)_2/90]s'), [0, 45, -45, 45, -45, 90, 90, -45, 45, -45, 45, 0])
            continue
        card = read_card(h, na.build_pcomp(seq, ml, tl, sout=so) if kind == 'lists' else
                         na.build_pcomp(seq, 5, t2) if kind == 'scalars' else na.build_pcomp(seq, ml, t1, sout='YES'), 3)
        if card is None:
            return
        want_t = {'lists': tl, 'scalars': [t2] * 3, 'yes': [t1] * 3}[kind]
        h.eq('angles', [h.field(f[2]) for f in card[2]], th, tol=1e-12)
        h.eq('thicknesses', [h.field(f[1]) for f in card[2]], want_t, tol=1e-12)
        h.eq('outputs', [f[3] for f in card[2]], {'lists': ['YES', 'NO', 'NO'], 'scalars': ['YES', 'NO', 'YES'], 'yes': ['YES'] * 3}[kind])
    h.eq('inputs', seq + tl, th + [t1, t2, t1])
    h.eq('other inputs', ml + so, [1, 2, 3, 'YES', 'NO', 'NO'])


def c29_optimisers(h):
    """Two problems posed one after the other; the second, and the first read again, against fresh copies."""
    import contextlib
    import io
    import warnings
    from .optimize import fun, read_bounds
    N1, N2 = h.pos('N1', (0.2, 9)), h.pos('N2', (0.2, 9))
    x = [h.pos('T', (0.1, 3)), h.real('xi1', (-0.4, 0.4)), h.real('xi3', (-0.2, 1))]
    h.assume(x[0] >= 0.01)
    mat = [h.pos('E1', (5e4, 2e5)), h.pos('E2', (5e3, 2e4)), h.q(1, 4), h.pos('G12', (2e3, 9e3))]
    h.assume(mat[0] > mat[1])
    edges = {'x0': ['TX', 'TY', 'TZ'], 'xa': ['TX', 'TZ', 'RX'], 'y0': ['TZ'], 'yb': ['TZ', 'RY']}
    start = [0.5, 0.25, 0.125]
    sets = {'max': ('max', dict(Nxx=-N1, m=1, n=3)), 'max parabola': ('max', dict(Nyy=-N2, Nxy=N2, m=1, n=3, penalty=False)),
            'max edges': ('max', dict(Nxx=-2 * N2, Nyy=-N2, m=3, n=1, panel_constraint=edges, tol=0.5)),
            'min': ('min', dict(Nxx=-N1, m=1, n=3)), 'min start': ('min', dict(Nxy=N2, m=3, n=1, x0=start, options=dict(maxiter=3))),
            'min edges': ('min', dict(Nxx=-N1, Nyy=-3 * N1, m=1, n=3, panel_constraint=edges))}

    def pose(name):
        f, kw = sets[name]
        log = h.start_minimize()
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            if f == 'max':
                h.mod('composipy.optimize').maximize_buckling_load(2, 1, 0.5, *mat, **kw)
            else:
                h.mod('composipy.optimize').minimize_panel_weight(2, 1, *mat, **kw)
        return log[0]

    def look(name, call):
        d = x[1:] if name.startswith('max') else x
        lo, hi = read_bounds(call['bounds'], len(d))
        return [frozen(list(call['x0'])), frozen(lo), frozen(hi), fun(call)(d)] + [[c.fun(d), c.lb, c.ub] for c in call['constraints'] if hasattr(c, 'fun')] + [
            call['tol'], len(call['constraints']), (call['options'] or {}).get('maxiter')]
    one, two = h.choice('first', list(sets)), h.choice('second', list(sets))
    c1 = pose(one)
    if h.choice('first is used', [0, 1]):
        look(one, c1)
    c2 = pose(two)
    seen = [(two, look(two, c2)), (one, look(one, c1))]
    for name, r in seen:
        with h.fresh():
            want = look(name, pose(name))
        same_result(h, name, r, want)
    h.eq('given start unchanged', start, [0.5, 0.25, 0.125])
    h.true('given edges unchanged', edges == {'x0': ['TX', 'TY', 'TZ'], 'xa': ['TX', 'TZ', 'RX'], 'y0': ['TZ'], 'yb': ['TZ', 'RY']})


PROPS = {
    'C25': dict(parts=dict(one=c25_one, two=c25_two, three=c25_three, digits=c25_digits, zero=c25_zero, four=c25_four), thorough_parts=('four',),
                bounds=dict(quick='any angles; subscripts and multipliers 1..3 and 10..12 with one element, 1..2 with more; up to 2 elements (12 unit forms, 10 block forms) and 3 elements of 5 forms; with and without s/S',
                            thorough='as quick with subscripts and multipliers up to 3, and 4 elements of 5 forms')),
    'C26': dict(parts=dict(card=c26, wrong=c26_wrong, sout=c26_bad_sout, string=c26_from_string),
                bounds=dict(quick='any angles, thicknesses, material ids; up to 7 plies', thorough='up to 12 plies')),
    'C27': dict(parts=dict([(c, c27_part(c)) for c in GOOD] + [('pairs_' + c, c27_pairs(c)) for c in GOOD] + [('notnumber', c27_notnumber), ('property', c27_property)]),
                bounds='every IEEE-754 double for each parameter, and for each pair of parameters together, the other parameters ordinary; a list of values that are not numbers',
                technique='symbolic execution of the Python source with z3 (IEEE-754 doubles, bit-precise), counterexample replay'),
    'C28': dict(parts=dict(materials=c28_materials, same=c28_same_material, stackings=c28_stackings, plies=c28_plies, long=c28_long,
                           lamination=c28_lamination, lamination_material=c28_lamination_material, mixed=c28_mixed),
                bounds='all pairs of materials; all pairs of stackings of up to 3 plies; stackings of up to 2 plies with one ply material different; laminates of 5, 9, 17, 33 plies that differ in one ply in 4 places; all pairs of lamination-parameter definitions'),
    'C29': dict(parts=dict(laminate=c29_laminate, strength=c29_strength, margin=c29_margin, plate=c29_plate, shared=c29_shared, functions=c29_functions, optimisers=c29_optimisers, **NEIGHBOURS),
                bounds=dict(quick='all sequences of 2 queries (then compared with fresh objects), with and without another object queried in between; laminates of 2 plies, plates of 3 terms; every pair of materials, laminates, strength objects, plates, optimiser designs and texts that differ in one respect (any two values of it)',
                            thorough='as quick, 3 queries on laminates')),
}
