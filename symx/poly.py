"""Exact polynomials and quotients of polynomials over the rationals.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of (variable id, exponent), exponents may be
negative (Laurent monomials: the variable is then known to be non-zero, see sym.py). Two kinds of variable carry a
rewrite rule that is applied while multiplying: the sine of a (cosine, sine) pair, s^2 -> 1 - c^2, and roots, r^2 -> p.
"""
from fractions import Fraction
import random

NAMES = []            # id -> name
INDEX = {}            # name -> id
POSITIVE = set()      # ids of variables assumed > 0
SQUARE = {}           # id -> polynomial its square rewrites to
BOUNDS = {}           # id -> (lo, hi) or None, informative

P_ = (1 << 61) - 1    # prime used by the divisibility pre-test


def reset():
    NAMES.clear(); INDEX.clear(); POSITIVE.clear(); SQUARE.clear(); BOUNDS.clear(); FACTORS.clear(); FINDEX.clear()
    _ROOTS.clear()


def var(name, positive=False):
    v = INDEX.get(name)
    if v is None:
        v = len(NAMES)
        NAMES.append(name)
        INDEX[name] = v
        if positive:
            POSITIVE.add(v)
    return v


ONE = ()


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def p_const(c):
    c = norm(c)
    return {ONE: c} if c else {}


def p_var(v):
    return {((v, 1),): 1}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None:
            r[m] = c
        else:
            x = x + c
            if x:
                r[m] = norm(x)
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: norm(c * k) for m, c in a.items()}


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            e = ea + eb
            if e:
                r.append((va, e))
            i += 1
            j += 1
        elif va < vb:
            r.append(a[i]); i += 1
        else:
            r.append(b[j]); j += 1
    if i < la:
        r.extend(a[i:])
    if j < lb:
        r.extend(b[j:])
    return tuple(r)


def m_reducible(m):
    for v, e in m:
        if e >= 2 and v in SQUARE:
            return v, e
    return None


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and ONE in a:
        return p_scale(b, a[ONE])
    if len(b) == 1 and ONE in b:
        return p_scale(a, b[ONE])
    r = {}
    get = r.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = m_mul(ma, mb)
            x = get(m)
            c = ca * cb
            r[m] = c if x is None else x + c
    red = None
    if SQUARE:
        for m in r:
            if m_reducible(m):
                red = True
                break
    if red:
        return p_reduce(r)
    return {m: norm(c) for m, c in r.items() if c}


def p_reduce(a):
    out = {}
    todo = [a]
    while todo:
        a = todo.pop()
        for m, c in a.items():
            if not c:
                continue
            red = m_reducible(m)
            if red is None:
                x = out.get(m, 0) + c
                if x:
                    out[m] = norm(x)
                else:
                    out.pop(m, None)
            else:
                v, e = red
                rest = tuple((w, f) for w, f in m if w != v)
                if e % 2:
                    rest = m_mul(rest, ((v, 1),))
                q = {rest: c}
                sq = SQUARE[v]
                for _ in range(e // 2):
                    nq = {}
                    for m1, c1 in q.items():
                        for m2, c2 in sq.items():
                            mm = m_mul(m1, m2)
                            nq[mm] = nq.get(mm, 0) + c1 * c2
                    q = nq
                todo.append(q)
    return out


def p_pow(a, n):
    r = {ONE: 1}
    base = a
    while n:
        if n & 1:
            r = p_mul(r, base)
        n >>= 1
        if n:
            base = p_mul(base, base)
    return r


def p_isconst(a):
    return not a or (len(a) == 1 and ONE in a)


def p_constval(a):
    return a.get(ONE, 0)


def m_key(m):
    return (sum(e for _, e in m), m)


def p_content(a):
    """Monomial with the minimum exponents over all terms (0 when absent): a = content * rest."""
    mins = None
    for m in a:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for v in list(mins):
                e = min(mins[v], d.get(v, 0))
                mins[v] = e
            for v, e in d.items():
                if v not in mins:
                    mins[v] = min(0, e)
    return tuple(sorted((v, e) for v, e in (mins or {}).items() if e))


def m_inv(m):
    return tuple((v, -e) for v, e in m)


def p_mulm(a, m):
    if not m:
        return a
    r = {m_mul(x, m): c for x, c in a.items()}
    if SQUARE and any(m_reducible(x) for x in r):
        r = p_reduce(r)
    return r


def p_vars(a):
    s = set()
    for m in a:
        for v, _ in m:
            s.add(v)
    return s


def p_freeze(a):
    return frozenset(a.items())


# ---------------------------------------------------------------- denominators
FACTORS = []          # fid -> polynomial (content-free, leading coefficient 1)
FINDEX = {}
_ROOTS = {}


def factor_id(p):
    k = p_freeze(p)
    f = FINDEX.get(k)
    if f is None:
        f = len(FACTORS)
        FACTORS.append(p)
        FINDEX[k] = f
    return f


def _root(fid):
    """A point mod P_ where the factor vanishes, found through a variable it is linear in; None if there is none.
    Variables with rewrite rules are not usable as coordinates (their relation would have to hold mod P_)."""
    if fid in _ROOTS:
        return _ROOTS[fid]
    p = FACTORS[fid]
    res = None
    vs = p_vars(p)
    bad = set()
    for s, sq in SQUARE.items():
        bad.add(s)
        bad |= p_vars(sq)
    rng = random.Random(12345 + fid)
    for v in sorted(vs - bad):
        if all(dict(m).get(v, 0) in (0, 1) for m in p):
            vals = {}
            c0 = c1 = 0
            for m, c in p.items():
                t = int(Fraction(c).numerator) * pow(int(Fraction(c).denominator), -1, P_) % P_
                lin = False
                for w, e in m:
                    if w == v:
                        lin = True
                        continue
                    if w not in vals:
                        vals[w] = rng.randrange(2, P_)
                    t = t * pow(vals[w], e, P_) % P_
                if lin:
                    c1 = (c1 + t) % P_
                else:
                    c0 = (c0 + t) % P_
            if c1:
                vals[v] = -c0 * pow(c1, -1, P_) % P_
                if vals[v]:
                    res = vals
                    break
    _ROOTS[fid] = res
    return res


def p_evalmod(a, vals, rng):
    s = 0
    for m, c in a.items():
        f = Fraction(c)
        t = f.numerator * pow(f.denominator, -1, P_) % P_
        for v, e in m:
            x = vals.get(v)
            if x is None:
                x = vals[v] = rng.randrange(2, P_)
            t = t * pow(x, e, P_) % P_
        s += t
    return s % P_


def p_exactdiv(a, b):
    """a / b when b divides a (no rewrite variables involved), else None."""
    if p_isconst(b):
        return p_scale(a, Fraction(1) / p_constval(b))
    ca = p_content(a)
    cb = p_content(b)
    a2 = p_mulm(a, m_inv(ca))
    b2 = p_mulm(b, m_inv(cb))
    shift = m_mul(ca, m_inv(cb))
    vs = sorted(p_vars(a2) | p_vars(b2))
    pos = {v: i for i, v in enumerate(vs)}

    def dense(p):
        out = {}
        for m, c in p.items():
            t = [0] * len(vs)
            for v, e in m:
                t[pos[v]] = e
            out[tuple(t)] = c
        return out
    A, B = dense(a2), dense(b2)
    lb = max(B)
    cb_ = B[lb]
    Q = {}
    import heapq
    heap = [tuple(-x for x in m) for m in A]
    heapq.heapify(heap)
    while A:
        la = None
        while heap:
            t = tuple(-x for x in heapq.heappop(heap))
            if t in A:
                la = t
                break
        if la is None:
            break
        q = tuple(x - y for x, y in zip(la, lb))
        if min(q, default=0) < 0:
            return None
        k = norm(Fraction(A[la]) / cb_)
        Q[q] = k
        for mb, c in B.items():
            m = tuple(x + y for x, y in zip(q, mb))
            x = A.get(m)
            if x is None:
                A[m] = -c * k
                heapq.heappush(heap, tuple(-y for y in m))
            else:
                x = x - c * k
                if x:
                    A[m] = x
                else:
                    del A[m]
    res = {}
    for m, c in Q.items():
        res[tuple((vs[i], e) for i, e in enumerate(m) if e)] = norm(c)
    return p_mulm(res, shift)


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d          # sorted tuple of (factor id, power > 0)

    def isconst(self):
        return not self.d and p_isconst(self.n)


def r_const(c):
    return Rat(p_const(c))


def _dpoly(d):
    r = {ONE: 1}
    for f, e in d:
        r = p_mul(r, p_pow(FACTORS[f], e))
    return r


def r_den(r):
    return _dpoly(r.d)


def r_cancel(r):
    if not r.d:
        return r
    if not r.n:
        return Rat({})
    n, d = r.n, dict(r.d)
    changed = False
    for f in list(d):
        while d.get(f, 0) > 0:
            root = _root(f)
            if root is None:
                if p_freeze(n) == p_freeze(FACTORS[f]):
                    n = {ONE: 1}
                    d[f] -= 1
                    changed = True
                    continue
                break
            rng = random.Random(99)
            if p_evalmod(n, dict(root), rng) != 0:
                break
            q = p_exactdiv(n, FACTORS[f])
            if q is None:
                break
            n = q
            d[f] -= 1
            changed = True
    if not changed:
        return r
    return Rat(n, tuple(sorted((f, e) for f, e in d.items() if e > 0)))


def r_add(a, b):
    if a.d == b.d:
        r = Rat(p_add(a.n, b.n), a.d)
        return r_cancel(r) if r.d else r
    da, db = dict(a.d), dict(b.d)
    com = dict(da)
    for f, e in db.items():
        com[f] = max(com.get(f, 0), e)
    na, nb = a.n, b.n
    for f, e in com.items():
        ka = e - da.get(f, 0)
        kb = e - db.get(f, 0)
        if ka:
            na = p_mul(na, p_pow(FACTORS[f], ka))
        if kb:
            nb = p_mul(nb, p_pow(FACTORS[f], kb))
    return r_cancel(Rat(p_add(na, nb), tuple(sorted(com.items()))))


def r_neg(a):
    return Rat(p_neg(a.n), a.d)


def r_mul(a, b):
    n = p_mul(a.n, b.n)
    if not n:
        return Rat({})
    if not a.d and not b.d:
        return Rat(n)
    d = dict(a.d)
    for f, e in b.d:
        d[f] = d.get(f, 0) + e
    return r_cancel(Rat(n, tuple(sorted(d.items()))))


def r_inv(a):
    """1/a; the caller is responsible for a != 0."""
    n = a.n
    c = p_content(n)
    if c:
        n = p_mulm(n, m_inv(c))
    out = _dpoly(a.d)
    if p_isconst(n):
        k = p_constval(n)
        return Rat(p_mulm(p_scale(out, Fraction(1) / k), m_inv(c)))
    lead = n[max(n, key=m_key)]
    n = p_scale(n, Fraction(1) / lead)
    out = p_mulm(p_scale(out, Fraction(1) / lead), m_inv(c))
    # perfect powers of known factors are split so that they cancel later
    d = {}
    changed = True
    while changed and not p_isconst(n):
        changed = False
        for f in range(len(FACTORS)):
            root = _root(f)
            if root is None or len(FACTORS[f]) > len(n):
                continue
            if p_evalmod(n, dict(root), random.Random(7)) == 0:
                q = p_exactdiv(n, FACTORS[f])
                if q is not None:
                    n = q
                    d[f] = d.get(f, 0) + 1
                    changed = True
    if not p_isconst(n):
        f = factor_id(n)
        d[f] = d.get(f, 0) + 1
    else:
        out = p_scale(out, Fraction(1) / p_constval(n))
    return r_cancel(Rat(out, tuple(sorted(d.items()))))


def r_pow(a, k):
    if k >= 0:
        if not a.d:
            return Rat(p_pow(a.n, k))
        return r_cancel(Rat(p_pow(a.n, k), tuple((f, e * k) for f, e in a.d)))
    return r_pow(r_inv(a), -k)


def p_eval(a, vals):
    s = 0
    for m, c in a.items():
        t = c
        for v, e in m:
            t = t * vals[v] ** e
        s += t
    return s


def r_eval(r, vals):
    n = p_eval(r.n, vals)
    d = 1
    for f, e in r.d:
        d = d * p_eval(FACTORS[f], vals) ** e
    return n / d


def p_str(p, limit=6):
    if not p:
        return '0'
    out = []
    for m, c in list(p.items())[:limit]:
        s = '*'.join(NAMES[v] + ('' if e == 1 else '^%d' % e) for v, e in m)
        out.append((str(c) + '*' + s) if s else str(c))
    return ' + '.join(out) + (' + ...' if len(p) > limit else '')
