"""Harness objects (symbolic and concrete), path exploration, verdicts, replay, evidence."""
import contextlib
import json
import math
import os
import random
import re
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


class Failed(BaseException):
    """Stops a path after a violated assertion (nothing after it is meaningful)."""


def flat(x):
    """Nested lists / arrays -> (shape, list of scalars)."""
    if x is None or isinstance(x, (str, bool)):
        return (), [x]
    if hasattr(x, 'reshape') and hasattr(x, 'shape') and getattr(x, 'ndim', 0) > 0:
        return tuple(x.shape), list(x.reshape(-1).tolist()) if x.dtype != object else list(x.reshape(-1))
    if hasattr(x, 'tolist') and type(x).__module__.startswith('pandas'):
        return flat(x.tolist())
    if isinstance(x, (list, tuple)):
        parts = [flat(y) for y in x]
        shapes = {p[0] for p in parts}
        out = [z for p in parts for z in p[1]]
        if len(shapes) > 1:
            return ('ragged',) + tuple(p[0] for p in parts), out
        return (len(x),) + (parts[0][0] if parts else ()), out
    return (), [x]


# ================================================================= concrete
class ConH:
    symbolic = False
    SEP = '/'

    def __init__(self, vals, tier='quick', seed=1):
        self.vals = vals
        self.tier = tier
        self.rng = random.Random(seed)
        self.failures = []
        self.gross = False         # some failure is far beyond what rounding explains
        self.diffs = {}            # label -> difference of the first mismatch
        self.values = []
        self._plots = None
        self._minlog = None
        sys.path.insert(0, REPO) if REPO not in sys.path else None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _get(self, name, gen):
        if name not in self.vals:
            self.vals[name] = gen()
        return self.vals[name]

    def pos(self, name, hint=(0.5, 2.0)):
        return float(self._get(name, lambda: self.rng.uniform(*hint)))

    def real(self, name, hint=(-1.0, 1.0)):
        return float(self._get(name, lambda: self.rng.uniform(*hint)))
    nonneg = pos

    def angle(self, name):
        return float(self._get(name, lambda: self.rng.uniform(-180, 180)))

    def int_(self, name, lo, hi):
        return int(self._get(name, lambda: self.rng.randint(lo, hi)))

    def flag(self, name):
        return bool(self._get(name, lambda: self.rng.random() < .5))

    def fp(self, name):
        v = self._get(name, lambda: 1.0)
        return float.fromhex(v) if isinstance(v, str) and v not in ('nan', 'inf', '-inf') else float(v)

    def literal(self, text, value):
        """A numeral in a string standing for a symbolic value: concretely, its text."""
        return repr(value) if not isinstance(value, int) else str(value)

    def choice(self, name, options):
        options = list(options)
        return options[int(self._get('choice:' + name, lambda: self.rng.randrange(len(options))))]

    def assume(self, b):
        if not b:
            raise Skip()

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def valid(self, cond):
        return bool(cond)

    @contextlib.contextmanager
    def fresh(self):
        mine = lambda: {k: v for k, v in sys.modules.items() if k == 'composipy' or k.startswith('composipy.')}
        old = mine()
        for k in old:
            del sys.modules[k]
        try:
            yield
        finally:
            for k in mine():
                del sys.modules[k]
            sys.modules.update(old)

    @property
    def np(self):
        import numpy
        return numpy

    def cosd(self, x):
        return math.cos(math.radians(x))

    def sind(self, x):
        return math.sin(math.radians(x))

    def sqrt(self, x):
        return math.sqrt(x)

    def q(self, a, b=1):
        return a / b

    def arr(self, x):
        import numpy
        return numpy.array(x, dtype=float)

    def table(self, d, key):
        return float(d[key])

    def mute(self):
        pass

    def field(self, text):
        """The number a piece of text denotes."""
        return float(text)

    def eq(self, label, got, want, scale=None, tol=1e-6, coef_tol=None, abs_tol=0, record=True):
        sg, g = flat(got)
        sw, w = flat(want)
        if record:
            self.values.append((label, [to_json(x) for x in g], None if scale is None else abs(float(scale))))
        if sg != sw:
            self.failures.append('%s: shape %s instead of %s' % (label, sg, sw))
            self.gross = True
            return
        nums = [abs(float(x)) for x in g + w if isnum(x) and math.isfinite(x)]
        s = max([0.0] + nums + ([abs(float(scale))] if scale is not None else []))
        for i, (x, y) in enumerate(zip(g, w)):
            ok = True
            if isnum(x) and isnum(y):
                x, y = float(x), float(y)
                if math.isnan(x) or math.isnan(y):
                    ok = math.isnan(x) and math.isnan(y)
                elif math.isinf(x) or math.isinf(y):
                    ok = x == y
                else:
                    ok = abs(x - y) <= tol * max(s, 1e-300)
            else:
                ok = same(x, y)
            if not ok:
                self.failures.append('%s[%d]: got %r, expected %r' % (label, i, x, y))
                self.gross |= not (isnum(x) and isnum(y)) or not abs(x - y) <= 1e-3 * s
                if isnum(x) and isnum(y):
                    self.diffs.setdefault(label, (i, float(x - y)))
                return

    def record(self, label, got):
        self.values.append((label, [to_json(x) for x in flat(got)[1]], None))

    def true(self, label, cond, slack=None):
        """slack: concretely, by how much the violation exceeds what rounding explains (positive: a real violation)."""
        ok = bool(cond)
        if not ok and slack is not None:
            ok = not float(slack()) > 0
        if not ok:
            self.failures.append('%s: does not hold' % label)

    def sos(self, label, expr, terms):
        if not float(expr) >= -1e-9 * max(1.0, sum(abs(float(w)) * float(b) ** 2 for w, b in terms)):
            self.failures.append('%s: %r is negative' % (label, float(expr)))

    def fail(self, label):
        self.failures.append(label)

    def raises(self, label, fn, excs):
        try:
            fn()
        except excs:
            return True
        except Exception as e:
            self.failures.append('%s: raised %r instead' % (label, e))
            return False
        self.failures.append('%s: nothing raised' % label)
        return False

    def plots(self):
        return self._plots

    def start_plots(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from mpl_toolkits.mplot3d import Axes3D
        self._plots = []
        log = self._plots

        def rec(ax, *a, **k):
            log.append(('plot_surface', a, k))
        Axes3D.plot_surface = rec
        plt.show = lambda *a, **k: None
        from matplotlib.axes import Axes

        def wrap(name):
            real = getattr(Axes, '_verif_' + name, None) or getattr(Axes, name)
            setattr(Axes, '_verif_' + name, real)

            def f(ax, *a, **k):
                log.append((name, a, k))
                return real(ax, *a, **k)
            setattr(Axes, name, f)
        for name in ('contour', 'contourf', 'plot', 'scatter'):
            wrap(name)

    def start_minimize(self, x=None):
        import scipy.optimize as so
        self._minlog = []
        log = self._minlog

        def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                     callback=None, options=None):
            r = OptResult(x=x0 if x is None else x, fun=None, success=True, call=len(log))
            log.append(dict(fun=fun, x0=x0, args=args, method=method, jac=jac, bounds=bounds, constraints=constraints,
                            tol=tol, options=options, result=r))
            return r
        so.minimize = minimize
        for n, m in list(sys.modules.items()):
            if n.startswith('composipy') and getattr(m, 'minimize', None) is not None:
                m.minimize = minimize
        return log

    @contextlib.contextmanager
    def eig_failure(self):
        """eigsh reports a failure; the list yielded grows with each failing call."""
        import scipy.sparse.linalg as sl
        real, calls = sl.eigsh, []

        def fail(*a, **k):
            calls.append(1)
            raise sl.ArpackError(-9999)
        places = [sl] + [m for n, m in list(sys.modules.items()) if n.startswith('composipy') and getattr(m, 'eigsh', None) is real]
        for m in places:
            m.eigsh = fail
        try:
            yield calls
        finally:
            for m in places:
                m.eigsh = real

    @contextlib.contextmanager
    def one_order(self):
        yield

    def eigs(self, K, KG):
        """All mu with KG x = mu K x (dense reference)."""
        import scipy.linalg
        return list(scipy.linalg.eigh(KG, K, eigvals_only=True))

    def warned(self, fn):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            fn()
        return len(w) > 0


class OptResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class Skip(BaseException):
    pass


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or type(x).__module__ == 'numpy' and hasattr(x, '__float__')


def same(x, y):
    if x is None or y is None:
        return x is y
    try:
        return bool(x == y)
    except Exception:
        return False


def to_json(x):
    if isnum(x):
        f = float(x)
        return f if math.isfinite(f) else repr(f)
    return repr(x)


# ================================================================= symbolic
class SymH:
    symbolic = True

    def __init__(self, ctx, tier, seed, pid, part):
        from . import loader
        self.ctx = ctx
        self.tier = tier
        self.seed = seed
        self.pid = pid
        self.part = part
        self.rng = random.Random(seed)
        self.uni = loader.Universe()
        self.decl = {}
        self.choices = {}
        self.records = []          # (label, list of got scalars)
        self.results = dict(asserts=0, discharged=0, violation=None, unconfirmed=[], queries=[])
        self.reach = False

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- inputs
    def _var(self, name, kind, hint, positive=False):
        from . import poly as P, sym as S
        if name in self.decl:
            return S.Sym(P.Rat(P.p_var(P.INDEX[name])))
        self.decl[name] = (kind, hint)
        v = P.var(name, positive)
        if positive:
            self.ctx.axiom(self.ctx.z.v(v) > 0)
        return S.Sym(P.Rat(P.p_var(v)))

    def pos(self, name, hint=(0.5, 2.0)):
        return self._var(name, 'pos', hint, True)

    def real(self, name, hint=(-1.0, 1.0)):
        return self._var(name, 'real', hint)

    def nonneg(self, name, hint=(0.5, 2.0)):
        x = self._var(name, 'real', hint)
        self.ctx.assume(x >= 0)
        return x

    def angle(self, name):
        from . import poly as P
        x = self._var(name, 'angle', (-180., 180.))
        self.ctx.new_angle(P.INDEX[name])
        return x

    def int_(self, name, lo, hi):
        from . import poly as P, sym as S
        import z3
        x = self._var(name, 'int', (lo, hi))
        v = P.INDEX[name]
        if v not in self.ctx.intvars:
            self.ctx.intvars.add(v)
            self.ctx.axiom(z3.IsInt(self.ctx.z.v(v)))
            self.ctx.assume(x >= lo)
            self.ctx.assume(x <= hi)
        return x

    def flag(self, name):
        from . import sym as S
        import z3
        self.decl.setdefault(name, ('flag', None))
        return S.SymBool('z3', None, (z3.Bool(name), ('flag', name)))

    def fp(self, name):
        from . import fp
        self.decl.setdefault(name, ('fp', None))
        self.ctx.fpmode = True
        return fp.var(name)

    def literal(self, text, value):
        """Register the numeral `text` as standing for the symbolic value; returns the text."""
        self.ctx.literals[text] = value
        return text

    def choice(self, name, options):
        options = list(options)
        if name not in self.choices:
            self.choices[name] = self.ctx.choose(len(options))
        return options[self.choices[name]]

    def assume(self, b):
        self.ctx.assume(b)

    def mod(self, name):
        return self.uni.load(name)

    @property
    def np(self):
        from . import loader
        return loader._np

    def cosd(self, x):
        from . import sym as S
        return S.cos_sin(S.mk(x) * S.mk_pi() / 180)[0]

    def sind(self, x):
        from . import sym as S
        return S.cos_sin(S.mk(x) * S.mk_pi() / 180)[1]

    def sqrt(self, x):
        return self.ctx.sqrt(x)

    def q(self, a, b=1):
        from . import sym as S
        return S.mk(Fraction(a, b))

    def arr(self, x):
        return self.np.array(x, dtype=float)

    def table(self, d, key):
        """Entry of an oracle table at a (symbolic) key."""
        from . import shims
        t = self.ctx.tablecache.get(('oracle', id(d)))
        if t is None:
            t = self.ctx.tablecache[('oracle', id(d))] = shims.SymTable(d)
        return t[key]

    def field(self, text):
        from . import shims
        text = text.strip()
        minus = text.startswith('-')
        t = shims.token_of(text[1:] if minus else text)
        if t is None:
            return float(text)
        spec = self.ctx.tokens[int((text[1:] if minus else text)[1:-1])][1]
        if spec:
            # written with a format: only its numeric meaning at given inputs is known
            from . import poly as P
            t = self.ctx.fresh_sym('printed', lambda vals, x=t: float(format(P.r_eval(x.r, vals), spec)))
        return -t if minus else t

    def valid(self, cond):
        """z3 shows that cond holds on this path."""
        from . import sym as S
        if not isinstance(cond, S.SymBool):
            return bool(cond)
        return decide_true(self.ctx, cond) is True

    @contextlib.contextmanager
    def fresh(self):
        """A copy of the package in which nothing has happened yet."""
        from . import loader
        old, self.uni = self.uni, loader.Universe()
        try:
            yield
        finally:
            self.uni = old

    # ---- recorded environments
    def start_plots(self):
        self.uni.plot_log.clear()

    def plots(self):
        return [c for c in self.uni.plot_log if c[0] in ('plot_surface', 'contour', 'contourf', 'plot', 'scatter')]

    def start_minimize(self, x=None):
        self.uni.minimize_log.clear()
        self.uni.minimize_log.x = x
        return self.uni.minimize_log

    @contextlib.contextmanager
    def one_order(self):
        """Branches taken inside are not explored the other way (a stated bound)."""
        self.ctx.oneway = True
        try:
            yield
        finally:
            self.ctx.oneway = False

    @contextlib.contextmanager
    def eig_failure(self):
        calls = self.ctx.eigfail = []
        try:
            yield calls
        finally:
            self.ctx.eigfail = None

    def eigs(self, K, KG):
        from . import shims
        return shims.pencil(KG, K)['w']

    def warned(self, fn):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            fn()
        return len(w) > 0

    def record(self, label, got):
        """A value compared with the real run when the encoding is validated."""
        self.records.append((label, flat(got)[1]))

    # ---- assertions
    def eq(self, label, got, want, scale=None, tol=1e-6, coef_tol=1e-9, abs_tol=0, record=True):
        """coef_tol, abs_tol: coefficients of corresponding monomials may differ by this much (relative to the largest
        coefficient when abs_tol is 0, else relative to the coefficient itself plus abs_tol)."""
        from . import sym as S
        sg, g = flat(got)
        sw, w = flat(want)
        if record:
            self.records.append((label, g))
        self.results['asserts'] += 1
        if sg != sw:
            return self._candidate(label + ': shape %s instead of %s' % (sg, sw), None)
        pairs = []
        for i, (x, y) in enumerate(zip(g, w)):
            rx, ry = S.to_rat(x) if not isinstance(x, bool) else None, S.to_rat(y) if not isinstance(y, bool) else None
            if rx is None or ry is None:
                xx, yy = x, y
                if S.nonfinite(x) and S.nonfinite(y):
                    ok = (x == y) or (x != x and y != y)
                elif isinstance(x, S.SymBool) or isinstance(y, S.SymBool):
                    ok = bool(x) == bool(y)
                else:
                    ok = same(x, y)
                if not ok:
                    return self._candidate('%s[%d]: %r instead of %r' % (label, i, x, y), None)
                continue
            pairs.append((i, rx, ry))
        if not pairs:
            self.results['discharged'] += 1
            return True
        verdict = decide_equal(self.ctx, pairs, coef_tol, abs_tol)
        if verdict is None:
            self.results['discharged'] += 1
            return True
        viol = lambda vals: any(differs(a, b, vals, g, w, tol, scale) for _, a, b in verdict)
        zf = lambda: diff_formula(self.ctx, verdict)
        return self._candidate(label + '[%d]' % verdict[0][0], viol, zf)

    def true(self, label, cond, slack=None):
        from . import sym as S
        import z3
        self.results['asserts'] += 1
        if not isinstance(cond, S.SymBool):
            if cond:
                self.results['discharged'] += 1
                return True
            return self._candidate(label, None)
        neg = S.not_(cond)
        r = decide_true(self.ctx, cond)
        if r is True:
            self.results['discharged'] += 1
            return True

        def viol(vals):
            try:
                return S.ev(neg, vals)
            except S.Unsupported:
                return True
        return self._candidate(label, viol, lambda: S.fm(neg, self.ctx.z), r)

    def sos(self, label, expr, terms):
        """expr >= 0, from the certificate expr = sum of weight * base^2 (an identity z3 decides) with weights >= 0 (each
        decided by z3); without the identity the inequality itself goes to z3."""
        from . import sym as S
        self.results['asserts'] += 1
        tot = 0
        for w, b in terms:
            tot = tot + w * b * b
        if decide_equal(self.ctx, [(0, S.to_rat(expr), S.to_rat(tot))], None) is None:
            good = True
            for w, b in terms:
                c = w >= 0
                if isinstance(c, S.SymBool):
                    c = decide_true(self.ctx, c) is True
                good = good and c
            if good:
                self.results['discharged'] += 1
                return True
        self.results['asserts'] -= 1
        return self.true(label, expr >= 0)

    def fail(self, label):
        self.results['asserts'] += 1
        return self._candidate(label, None)

    def raises(self, label, fn, excs):
        self.results['asserts'] += 1
        try:
            fn()
        except excs:
            self.results['discharged'] += 1
            return True
        except Exception as e:
            return self._candidate('%s: raised %r instead' % (label, e), None)
        return self._candidate('%s: nothing raised' % label, None)

    # ---- counterexamples
    def _candidate(self, label, viol, zf=None, r=None):
        from . import sym as S
        for vals in candidates(self, viol, zf):
            out = replay(self.pid, self.part, vals, self.tier)
            if out.get('failures') and not degenerate(label, out):
                self.results['violation'] = dict(label=label, failures=out['failures'], vals=vals)
                raise Failed()
        hit = rescaled(self)
        if hit is not None:
            self.results['violation'] = dict(label=label, failures=hit[1]['failures'], vals=hit[0])
            raise Failed()
        self.results['unconfirmed'].append(label)
        raise Failed()


def degenerate(label, out):
    """The real run stops because a matrix is singular at these (model-chosen) inputs, which is outside the domain, and
    not with what this path shows."""
    exc = out.get('exception')
    if label.startswith('unexpected') and exc is None:
        return not out.get('gross')
    if exc is None or not all(f.startswith('unexpected') for f in out['failures']):
        return False
    if label.startswith('unexpected'):
        return exc not in label
    return exc in ('LinAlgError', 'ArpackError', 'ArpackNoConvergence', 'MatrixRankWarning') or 'ingular' in out['failures'][-1]


def lin(z, p, cache):
    """Linear form of a polynomial with every monomial as an independent real (sound for unsat)."""
    import z3
    ts = []
    for m, c in p.items():
        if not m:
            ts.append(z.const(c))
            continue
        v = cache.get(m)
        if v is None:
            v = cache[m] = z3.Real('m%d' % len(cache))
        ts.append(v * z.const(c))
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(*ts) if len(ts) > 1 else ts[0]


def over_common(a, b):
    from . import poly as P
    da, db = dict(a.d), dict(b.d)
    com = dict(da)
    for f, e in db.items():
        com[f] = max(com.get(f, 0), e)
    na, nb = a.n, b.n
    for f, e in com.items():
        if e - da.get(f, 0):
            na = P.p_mul(na, P.p_pow(P.FACTORS[f], e - da.get(f, 0)))
        if e - db.get(f, 0):
            nb = P.p_mul(nb, P.p_pow(P.FACTORS[f], e - db.get(f, 0)))
    return na, nb, com


def timed(ctx, s, *fs):
    t = time.time()
    if fs:
        s.push()
        s.add(*fs)
    r = s.check()
    if fs:
        s.pop()
    ctx.stats.queries += 1
    ctx.stats.time += time.time() - t
    return r


def decide_equal(ctx, pairs, coef_tol, abs_tol=0):
    """None when z3 shows every pair equal; otherwise the pairs it does not."""
    import z3
    from . import poly as P
    z = ctx.z
    cache = {}
    prepared = []
    alts = []
    for i, a, b in pairs:
        na, nb, com = over_common(a, b)
        prepared.append((i, a, b, na, nb, com))
        alts.append(lin(z, na, cache) != lin(z, nb, cache))
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 60000)
    if timed(ctx, s, z3.Or(*alts)) == z3.unsat:
        return None
    if coef_tol is not None and len(prepared) > 1 and within(ctx, [(p[3], p[4]) for p in prepared], coef_tol, abs_tol):
        return None
    left = []
    for (i, a, b, na, nb, com), alt in zip(prepared, alts):
        if timed(ctx, s, alt) == z3.unsat:
            continue
        if coef_tol is not None and within(ctx, [(na, nb)], coef_tol, abs_tol):
            continue
        if ctx.facts_lin and by_facts(ctx, P.p_sub(na, nb), com):
            continue
        left.append((i, a, b))
    if not left:
        return None
    # the abstraction of monomials may be too weak: ask for the exact meaning under the path condition
    hard = []
    for i, a, b in left:
        if len(hard) >= 3:
            break
        f = diff_formula(ctx, [(i, a, b)])
        r, m = ctx.check(f, timeout=5000)
        if r == z3.unsat:
            continue
        hard.append((i, a, b))
    return hard or None


def same_forms(ctx, pairs):
    """z3 (monomials as independent reals) shows all pairs equal."""
    import z3
    cache = {}
    alts = []
    for a, b in pairs:
        na, nb, _ = over_common(a, b)
        alts.append(lin(ctx.z, na, cache) != lin(ctx.z, nb, cache))
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 20000)
    return timed(ctx, s, z3.Or(*alts)) == z3.unsat


def within(ctx, pairs, eps, absolute=0):
    """z3: no assignment of the monomials makes a difference exceed the tolerance: eps * (largest coefficient) * sum
    |monomial|, or with `absolute` sum over monomials of (eps * |coefficient| + absolute) * |monomial|."""
    import z3
    z = ctx.z
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 30000)
    xs = {}
    alts = []
    for na, nb in pairs:
        d = {m: na.get(m, 0) - nb.get(m, 0) for m in set(na) | set(nb)}
        d = {m: c for m, c in d.items() if c}
        if len(d) > 20000:
            return False
        if not d:
            continue
        C = max([abs(c) for c in na.values()] + [abs(c) for c in nb.values()] + [0])
        ts, us = [], []
        for m, c in d.items():
            v = xs.get(m)
            if v is None:
                v = xs[m] = (z3.Real('x%d' % len(xs)), z3.Real('t%d' % len(xs)))
                s.add(v[0] <= v[1], v[0] >= -v[1])
            ts.append(z.const(c) * v[0])
            us.append(z.const((Fraction(eps) * abs(Fraction(nb.get(m, 0))) + Fraction(absolute)) if absolute else Fraction(C) * Fraction(eps)) * v[1])
        L, R = z3.Sum(*ts), z3.Sum(*us)
        alts.append(L > R)
    if not alts:
        return True
    s.add(z3.Or(*alts))
    return timed(ctx, s) == z3.unsat


def by_facts(ctx, diff, com):
    """diff == 0 follows linearly from the contract equations (multiplied by monomials that make them comparable)."""
    import z3
    from . import poly as P
    z = ctx.z
    cache = {}
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 30000)
    c = P.p_content(diff)
    diff = P.p_mulm(diff, P.m_inv(c)) if c else diff
    key = ('forms', tuple(sorted(com.items())), c, len(ctx.facts_lin))
    fs = ctx.opaques.get(key)
    if fs is None:
        fs = {}
        for r in ctx.facts_lin:
            n = r.n
            d = dict(r.d)
            for f, e in com.items():
                k = e - d.get(f, 0)
                if k > 0:
                    n = P.p_mul(n, P.p_pow(P.FACTORS[f], k))
            cn = P.p_content(n)
            for g in [n] + ([P.p_mulm(n, P.m_inv(cn))] if cn else []) + ([P.p_mulm(n, P.m_inv(c))] if c else []):
                fs[P.p_freeze(g)] = g
        fs = ctx.opaques[key] = list(fs.values())
    # only the equations connected to the difference by shared monomials matter
    want = set(diff)
    rest = fs
    while True:
        hit = [n for n in rest if not want.isdisjoint(n)]
        if not hit:
            break
        rest = [n for n in rest if want.isdisjoint(n)]
        for n in hit:
            s.add(lin(z, n, cache) == 0)
            want.update(n)
    s.add(lin(z, diff, cache) != 0)
    return timed(ctx, s) == z3.unsat


def diff_formula(ctx, pairs):
    import z3
    from . import poly as P, sym as S
    out = []
    for _, a, b in pairs:
        na, nb, _ = over_common(a, b)
        d, _ = S.clear_laurent(P.p_sub(na, nb))
        out.append(ctx.z.poly(d) != 0)
    for r in ctx.facts_lin:
        pass
    return z3.Or(*out)


def decide_true(ctx, cond):
    import z3
    from . import sym as S
    neg = S.not_(cond)
    for b in [neg]:
        ctx.angle_axioms(b)
    r, m = ctx.check(S.fm(neg, ctx.z))
    if r == z3.unsat:
        return True
    return r


def differs(a, b, vals, g, w, tol, scale):
    from . import poly as P
    try:
        x, y = P.r_eval(a, vals), P.r_eval(b, vals)
        return not (abs(x - y) <= 3 * tol * max(abs(x), abs(y), 1e-300))
    except (ZeroDivisionError, OverflowError, ValueError):
        return False


# ---------------------------------------------------------------- valuations
def complete(h, base):
    """Numeric values of every symbol from values of the declared inputs."""
    from . import poly as P, sym as S
    ctx = h.ctx
    vals = {}
    for name, x in base.items():
        if name in P.INDEX:
            vals[P.INDEX[name]] = x
    for n, v in P.INDEX.items():
        if n == 'PI':
            vals[v] = math.pi
        elif n in ('sqrt2', 'sqrt3'):
            vals[v] = math.sqrt(int(n[4:]))
    for name in base:
        vals[('flag', name)] = base[name]
        if h.decl.get(name, ('',))[0] == 'fp':
            x = base[name]
            vals[('fp', name)] = float(x) if x in ('nan', 'inf', '-inf') else float.fromhex(x)

    def late():
        for key, (ci, si) in ctx.trig.items():
            try:
                if key[0] == 'deg':
                    t = math.radians(vals[key[1]] / key[2])
                elif key[0] == 'const':
                    t = math.radians(float(key[1]))
                else:
                    t = P.r_eval(ctx.radian_args[key], vals)
            except KeyError:
                continue
            vals[ci], vals[si] = math.cos(t), math.sin(t)
    late()
    for sv, v in ctx.parity.items():
        vals[sv] = -1 if int(vals[v]) % 2 else 1
    for v, fn in ctx.defs:
        if fn is not None:
            try:
                vals[v] = fn(vals)
            except KeyError:
                late()
                vals[v] = fn(vals)
    late()
    return vals


def pc_holds(h, vals):
    from . import sym as S
    for b in h.ctx.pc:
        try:
            if isinstance(b, S.SymBool) and b.op == '==' and b.r is not None:
                from . import poly as P
                if abs(P.r_eval(b.r, vals)) > 1e-9:
                    return False
                continue
            if not S.ev(b, vals):
                return False
        except (KeyError, ZeroDivisionError, OverflowError, S.Unsupported):
            return False
    return True


def random_base(h, rng, style):
    base = {}
    for name, (kind, hint) in h.decl.items():
        if kind == 'pos':
            lo, hi = hint
            x = rng.uniform(lo, hi) if lo <= 0 or hi / lo < 50 else math.exp(rng.uniform(math.log(lo), math.log(hi)))
            if style == 'round':
                x = max(round(x, 2), 0.01)
        elif kind == 'real':
            x = rng.uniform(*hint)
            if style == 'round':
                x = round(x, 2)
            if style == 'special' and rng.random() < .4:
                x = rng.choice([0.0, hint[0], hint[1]])
        elif kind == 'angle':
            x = rng.uniform(-180, 180)
            if style == 'round':
                x = round(x)
            if style == 'special':
                x = rng.choice([0., 90., 45., -45., 30., 60., 180.])
        elif kind == 'int':
            x = rng.randint(*hint)
        elif kind == 'flag':
            x = h.ctx.known.get(('z3', name, "('flag', '%s')" % name))
            x = bool(rng.random() < .5) if x is None else x
        elif kind == 'fp':
            continue
        else:
            continue
        base[name] = x
    return base


def model_base(h, m, rng):
    """Values of the declared inputs in a z3 model."""
    import z3
    from . import poly as P
    z = h.ctx.z
    base = {}

    def num(t):
        x = m.eval(t, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(30)
        try:
            return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        except Exception:
            return None
    for name, (kind, hint) in h.decl.items():
        if kind == 'flag':
            base[name] = bool(z3.is_true(m.eval(z3.Bool(name), model_completion=True)))
            continue
        if kind == 'fp':
            from . import fp
            base[name] = fp.model_value(m, name)
            continue
        v = P.INDEX[name]
        if kind == 'angle' and v not in h.ctx.special:
            dens = h.ctx.angles.get(v, {1})
            d = max(dens)
            pr = h.ctx.trig.get(('deg', v, d))
            if pr is not None:
                c, s = num(z.v(pr[0])), num(z.v(pr[1]))
                if c is not None and s is not None and (c or s):
                    base[name] = round(math.degrees(math.atan2(s, c)) * d, 9)
                    continue
        x = num(z.v(v))
        if x is None:
            x = rng.uniform(*hint)
        base[name] = int(x) if kind == 'int' else x
    return base


def candidates(h, viol, zf):
    """Inputs that should show the violation on this path; numerically screened random ones, then z3 models."""
    import z3
    from . import sym as S
    rng = random.Random(h.seed * 7919 + len(h.records))
    n = 0
    ch = {'choice:' + k: v for k, v in h.choices.items()}
    allreal = not any(k == 'fp' for k, _ in h.decl.values())
    tries = 0
    if allreal:
        for i in range(400):
            style = ('round', 'plain', 'special')[i % 3]
            base = random_base(h, rng, style)
            try:
                vals = complete(h, base)
                if not pc_holds(h, vals):
                    continue
                if viol is not None and not viol(vals):
                    continue
            except (KeyError, ValueError, ZeroDivisionError, OverflowError, ArithmeticError, S.Unsupported):
                continue
            except Exception:
                continue
            n += 1
            yield dict(base, **ch)
            if n >= 3:
                break
        if n == 0:
            yield from narrow(h, viol, rng, ch)
    for extra in ([zf()] if zf is not None else []) + [None]:
        fs = [extra] if extra is not None else []
        r, m = h.ctx.check(*fs, timeout=10000, model=True)
        if m is not None:
            yield dict(model_base(h, m, rng), **ch)
            # other models near ordinary magnitudes
            bounds = []
            for name, (kind, hint) in h.decl.items():
                if kind in ('pos', 'real') and hint:
                    from . import poly as P
                    v = h.ctx.z.v(P.INDEX[name])
                    bounds += [v >= h.ctx.z.const(Fraction(hint[0])), v <= h.ctx.z.const(Fraction(hint[1]))]
            if bounds:
                r, m = h.ctx.check(*(fs + bounds), timeout=10000, model=True)
                if m is not None:
                    yield dict(model_base(h, m, rng), **ch)


def narrow(h, viol, rng, ch, seconds=12):
    """Ordinary inputs do not reach this path: start from a z3 model of the path condition that is as ordinary as it can
    be, keep some of its values, draw the others, or shrink or stretch single inputs."""
    from . import poly as P, sym as S
    t = time.time()
    bounds, m = [], None
    for name, (kind, hint) in h.decl.items():
        if kind in ('pos', 'real') and hint and time.time() - t < seconds / 2:
            v = h.ctx.z.v(P.INDEX[name])
            b = [v >= h.ctx.z.const(Fraction(hint[0])), v <= h.ctx.z.const(Fraction(hint[1]))]
            r, got = h.ctx.check(*(bounds + b), timeout=1000, model=True)
            if got is not None:
                bounds, m = bounds + b, got
    fixed = None
    if m is not None:
        try:
            fixed = model_base(h, m, rng)
        except Exception:
            fixed = None
    n = 0
    for i in range(3000):
        if n >= 2 or time.time() - t > seconds:
            return
        base = random_base(h, rng, ('plain', 'round', 'special')[i % 3])
        if i % 2 and fixed is not None:
            for k in base:
                if rng.random() < .6 and fixed.get(k) is not None:
                    base[k] = fixed[k]
        else:
            for k, (kind, _) in h.decl.items():
                if kind in ('pos', 'real') and k in base and rng.random() < .3:
                    base[k] *= 10.0 ** rng.uniform(-3, 1.5)
        try:
            vals = complete(h, base)
            if not pc_holds(h, vals) or (viol is not None and not viol(vals)):
                continue
        except Exception:
            continue
        n += 1
        yield dict(base, **ch)


RESCALED = [0]


def rescaled(h, seconds=40):
    """The solver's counterexample is too small to be seen in floating point (a threshold, a rounded digit): look for a
    counterexample of visible size by scaling families of inputs.  It counts only when the real code fails grossly and
    by a stable amount under tiny perturbations, so that ill-conditioned inputs do not count."""
    RESCALED[0] += 1
    if RESCALED[0] > 2:
        return None
    if any(k not in ('pos', 'real', 'angle', 'flag', 'int') for k, _ in h.decl.values()):
        return None
    if not any(k in ('pos', 'real') for k, _ in h.decl.values()):
        return None
    rng = random.Random(h.seed * 31 + 5)
    ch = {'choice:' + k: v for k, v in h.choices.items()}
    fam = {n: re.sub(r'[^A-Za-z].*$', '', n)[:2 if n[:1] == 'e' else 1] for n in h.decl}
    t = time.time()
    while time.time() - t < seconds:
        cases = []
        for i in range(16):
            base = random_base(h, rng, ('plain', 'round', 'special')[i % 3])
            common = rng.choice([-12, -9, -7, -6, -5, -4, -3, -2, 2, 3, 4, 6])
            exps = {f: 0 if rng.random() < .35 else common if rng.random() < .6 else rng.randint(-12, 4) for f in set(fam.values())}
            zero = {f for f in exps if rng.random() < .2}
            for n, (kind, _) in h.decl.items():
                if kind in ('pos', 'real'):
                    base[n] = base[n] * 10.0 ** exps[fam[n]]
                    if kind == 'real' and fam[n] in zero:
                        base[n] = 0.0
            cases.append(dict(base, **ch))
        outs = replay(h.pid, h.part, None, h.tier, many=cases)
        for c, o in zip(cases, outs):
            if not o.get('failures') or not o.get('gross') or o.get('exception'):
                continue
            near = [{n: x * (1 + rng.uniform(-1, 1) * 1e-11) if isinstance(x, float) else x for n, x in c.items()} for _ in range(4)]
            again = replay(h.pid, h.part, None, h.tier, many=near)
            if len(again) == 4 and all(stable(o, p) for p in again):
                return c, o
    return None


def stable(o, p):
    if not p.get('failures') or not p.get('gross') or p.get('exception'):
        return False
    for k, (i, d) in o.get('diffs', {}).items():
        if k not in p.get('diffs', {}) or p['diffs'][k][0] != i or not abs(p['diffs'][k][1] - d) <= 0.01 * abs(d):
            return False
    return True


def clean_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    e.setdefault('MPLCONFIGDIR', '/tmp/mpl-verif')
    return e


def replay(pid, part, vals, tier, many=None):
    """Run the harness on the real package in a fresh process."""
    req = dict(property=pid, part=part, tier=tier, cases=[vals] if many is None else many)
    p = subprocess.run([PY, os.path.join(VERIF, 'replay.py'), '--stdin'], input=json.dumps(req), capture_output=True,
                       text=True, env=clean_env(), timeout=600)
    try:
        out = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return dict(error=(p.stdout + p.stderr)[-2000:]) if many is None else []
    return out[0] if many is None else out


def run_concrete(fn, vals, tier):
    h = ConH(dict(vals), tier)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(h)
    except Skip:
        return dict(skipped=True, failures=[], values=h.values)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/composipy/' in f.filename]
        loc = '%s:%d' % (os.path.relpath(where[-1].filename, REPO), where[-1].lineno) if where else 'harness'
        h.failures.append('unexpected %s: %s (at %s)' % (type(e).__name__, str(e)[:300], loc))
        return dict(failures=h.failures, values=h.values, exception=type(e).__name__)
    return dict(failures=h.failures, values=h.values, gross=h.gross, diffs=h.diffs)


# ================================================================= exploration
def run_path(pid, part, fn, prefix, tier, seed, profile=False, want_sample=False):
    from . import poly as P, sym as S, shims as H
    P.reset()
    H.EIGLOG.clear()
    st = S.Stats()
    ctx = S.Ctx(list(prefix), st)
    S.CTX = ctx
    h = SymH(ctx, tier, seed, pid, part)
    res = h.results
    status = 'ok'
    funcs = set()
    err = None
    if profile:
        def prof(frame, event, arg):
            if event == 'call':
                f = frame.f_code.co_filename
                if f.startswith(REPO):
                    funcs.add(os.path.relpath(f, REPO) + ':' + frame.f_code.co_qualname)
        sys.setprofile(prof)
    try:
        try:
            fn(h)
        finally:
            sys.setprofile(None)
        if ctx.unsupported:
            raise S.Unsupported(ctx.unsupported)
    except Failed:
        status = 'violation' if res['violation'] else 'unconfirmed'
    except S.Infeasible:
        status = 'infeasible'
    except (S.Unsupported, S.PathLimit) as e:
        status = 'unsupported'
        err = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        res['asserts'] += 1
        err = '%s: %s' % (type(e).__name__, e)
        tbs = traceback.format_exc()
        if ctx.unsupported:
            status = 'unsupported'
            err = ctx.unsupported
        else:
            try:
                h._candidate('unexpected %s' % err, None)
            except Failed:
                pass
            status = 'violation' if res['violation'] else 'unconfirmed'
            if status == 'unconfirmed':
                err += '\n' + tbs
    sample = None
    if want_sample and status == 'ok':
        rng = random.Random(seed + 31)
        isfp = any(k == 'fp' for k, _ in h.decl.values())
        if True:
            for i in range(1 if isfp else 60):
                base = model_base(h, ctx.check(model=True)[1], rng) if isfp else random_base(h, rng, 'plain')
                try:
                    vals = complete(h, base)
                    if not pc_holds(h, vals):
                        continue
                    exp = [(l, [to_json(num_eval(x, vals)) for x in g]) for l, g in h.records]
                except Exception:
                    continue
                sample = dict(vals=dict(base, **{'choice:' + k: v for k, v in h.choices.items()}), expect=exp)
                break
    # reachability: the path condition itself is satisfiable (the path is not vacuous)
    reach = None
    if status == 'ok' and want_sample:
        import z3
        reach = str(ctx.check(timeout=5000)[0])
    out = dict(status=status, asserts=res['asserts'], discharged=res['discharged'], violation=res['violation'],
               unconfirmed=res['unconfirmed'], err=err, queries=st.queries, time=st.time, branches=st.branches,
               unknown=st.unknown, funcs=sorted(funcs), sample=sample, reach=reach, part=part, prefix=list(prefix),
               choices={k: v for k, v in h.choices.items()})
    S.CTX = None
    return out, ctx.pending


def num_eval(x, vals):
    from . import sym as S, poly as P
    if isinstance(x, S.Sym):
        return P.r_eval(x.r, vals)
    if hasattr(x, '_fp_isnan'):
        return x.e(vals)
    if isinstance(x, S.SymBool):
        return S.ev(x, vals)
    return x


def task(args):
    """Depth-first exploration from a prefix for a while; returns the results and the prefixes left over."""
    pid, part, prefix, tier, seed, budget, first = args
    from . import props
    fn = props.get(pid)['parts'][part]
    outs = []
    stack = [prefix]
    t0 = time.time()
    n = 0
    while stack and (time.time() - t0 < budget or n == 0):
        p = stack.pop()
        try:
            o, pend = run_path(pid, part, fn, p, tier, seed, profile=first and n < 2, want_sample=(first and n < 3) or (n == 0))
        except Exception as e:
            o, pend = dict(status='error', err=traceback.format_exc(), asserts=0, discharged=0, queries=0, time=0, branches=0,
                           unknown=0, funcs=[], sample=None, reach=None, violation=None, unconfirmed=[], part=part,
                           prefix=p, choices={}), []
        stack.extend(pend)
        outs.append(o)
        n += 1
        if o['violation']:
            break
    return outs, stack, part


def check(pid, tier, seed, jobs=None, limit=None):
    import multiprocessing as mp
    from . import props
    t0 = time.time()
    prop = props.get(pid)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    limit = limit or (700 if tier == 'quick' else 6 * 3600)
    if prop.get('prepare'):
        prop['prepare']()
    parts = prop['parts']
    queue = [(pid, name, [], tier, seed, 1.0, True) for name in parts
             if tier == 'thorough' or name not in prop.get('thorough_parts', ())]
    results = []
    ctxm = mp.get_context('fork')
    import concurrent.futures as cf
    violation = None
    incomplete = False
    with cf.ProcessPoolExecutor(max_workers=jobs, mp_context=ctxm) as ex:
        running = {}
        while (queue or running) and violation is None:
            while queue and len(running) < jobs * 2:
                a = queue.pop()
                running[ex.submit(task, a)] = a
            done, _ = cf.wait(running, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in done:
                a = running.pop(f)
                try:
                    outs, left, part = f.result()
                except Exception as e:
                    results.append(dict(status='error', err='worker: %r' % e, part=a[1], prefix=a[2], asserts=0, discharged=0,
                                        queries=0, time=0, branches=0, unknown=0, funcs=[], sample=None, reach=None,
                                        violation=None, unconfirmed=[]))
                    continue
                results.extend(outs)
                for o in outs:
                    if o['violation'] and violation is None:
                        violation = o
                # with few prefixes left keep tasks short, so that all workers have something to do
                b = 0.3 if len(queue) + len(left) < 4 * jobs else 5.0
                queue.extend((pid, part, p, tier, seed, b, False) for p in left)
            if time.time() - t0 > limit:
                incomplete = True
                break
        for f in running:
            f.cancel()
        if violation or incomplete:
            for p in list(getattr(ex, '_processes', {}).values()):
                p.terminate()
    return finish(pid, tier, seed, prop, results, violation, incomplete, t0)


def finish(pid, tier, seed, prop, results, violation, incomplete, t0):
    ok = [r for r in results if r['status'] == 'ok']
    bad = [r for r in results if r['status'] in ('unsupported', 'error', 'unconfirmed')]
    # translator validation: symbolic values at sample inputs against the real package
    validated = 0
    mismatches = []
    samples = []
    cases = {}
    per_part = {}
    for r in ok:
        if r['sample']:
            k = per_part.get(r['part'], 0)
            if k < (6 if tier == 'quick' else 25):
                per_part[r['part']] = k + 1
                cases.setdefault(r['part'], []).append(r['sample'])
    if violation is None and not prop.get('novalidate'):
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as tp:
            fs = {part: tp.submit(replay, pid, part, None, tier, [s['vals'] for s in ss]) for part, ss in cases.items()}
            for part, ss in cases.items():
                outs = fs[part].result()
                for s, o in zip(ss, outs or []):
                    d = compare_values(s['expect'], o.get('values', []))
                    if o.get('failures'):
                        d = d or 'concrete run fails: %s' % o['failures'][:2]
                    if d:
                        mismatches.append(dict(part=part, vals=s['vals'], what=d))
                    else:
                        validated += 1
                if not outs:
                    mismatches.append(dict(part=part, what='no output from the concrete run'))
    for part, ss in cases.items():
        for s in ss[:2]:
            samples.append(dict(part=part, inputs=s['vals'], values=[[l, v[:4]] for l, v in s['expect'][:3]]))
    funcs = sorted({f for r in results for f in r['funcs']})
    reach = [r['reach'] for r in results if r['reach'] is not None]
    parts_reached = {r['part'] for r in ok if r['asserts']}
    expected_parts = {n for n in prop['parts'] if tier == 'thorough' or n not in prop.get('thorough_parts', ())}
    vac = sorted(expected_parts - parts_reached)
    tot = lambda k: sum(r[k] for r in results)
    cov = dict(
        states=len(results), transitions=tot('branches') + len(results), traces_validated_against_impl=validated, samples=samples[:8] or ['none'],
        paths=len(results), paths_ok=len(ok), paths_infeasible=sum(r['status'] == 'infeasible' for r in results),
        solver_branch_decisions=tot('branches'), assertions=tot('asserts'), assertions_discharged=tot('discharged'),
        solver_queries=tot('queries'), solver_time_s=round(tot('time'), 3), solver_unknown=tot('unknown'),
        functions_encoded=funcs, bounds=prop['bounds'][tier] if isinstance(prop['bounds'], dict) else prop['bounds'],
        outside=prop.get('outside', ''), reachability_sat=sum(x == 'sat' for x in reach), reachability_asked=len(reach),
        translator_mismatches=len(mismatches), inconclusive=[dict(part=r['part'], why=(r['err'] or '; '.join(r['unconfirmed']))[:300]) for r in bad][:10],
        explanation='states = execution paths of the harness over the real source, transitions = solver-decided branch '
                    'points plus paths; every assertion on every path is a z3 query over all values of the symbolic inputs')
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=prop.get('assumptions', []) + COMMON, wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d paths (%d ok), %d assertions (%d discharged), %d queries, solver %.1fs, %d validated, wall %.1fs' % (
        pid, tier, len(results), len(ok), tot('asserts'), tot('discharged'), tot('queries'), tot('time'), validated,
        time.time() - t0))
    if violation:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        import hashlib
        v = violation['violation']
        name = '%s-%s.json' % (pid, hashlib.sha1(json.dumps(v['vals'], sort_keys=True, default=str).encode()).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, part=violation['part'], tier=tier, cases=[v['vals']], label=v['label'], failures=v['failures']), f, indent=1)
        print('  %s: %s' % (v['label'][:300], v['failures'][:3]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    rc = 0
    for r in bad[:5]:
        print('INCONCLUSIVE %s/%s %s: %s %s choices=%s' % (pid, r['part'], r['status'], (r['err'] or '')[:1500], r['unconfirmed'][:2], r.get('choices')))
        rc = 2
    if mismatches:
        print('ENCODING MISMATCH', json.dumps(mismatches[:2], default=str)[:1500])
        rc = 2
    if vac:
        print('VACUOUS: no assertion reached in', vac)
        rc = 2
    if incomplete:
        print('INCOMPLETE: time limit')
        rc = 2
    return rc


def compare_values(exp, got):
    if len(exp) != len(got):
        return 'number of recorded values %d / %d' % (len(exp), len(got))
    for (l, a), (l2, b, sc) in zip(exp, got):
        if l != l2 or len(a) != len(b):
            return 'labels %s %s' % (l, l2)
        nums = [abs(x) for x in a + b if isinstance(x, (int, float))]
        s = max(nums + [1e-12] + ([sc] if sc else []))
        for x, y in zip(a, b):
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if abs(x - y) > 1e-5 * s:
                    return '%s: symbolic %r, real %r' % (l, x, y)
            elif isinstance(x, str) and isinstance(y, str):
                if x != y and '\u27e6' not in x:
                    return '%s: symbolic %r, real %r' % (l, x, y)
    return None


COMMON = [
    'numbers are mathematical reals; floating-point rounding is outside the claim (except where IEEE arithmetic is stated)',
    'float literals stand for the simplest rational (or simple multiple of pi) that rounds to them; differences below the stated coefficient tolerance are accepted',
    'numpy object arrays, the Python interpreter, z3 and the symbolic scalar classes are trusted; the latter are compared with real runs on every execution',
    'cos/sin by c^2+s^2=1, exact angle addition and exact special angles; linear systems larger than 3x3 by their defining equation (non-singular)',
]
