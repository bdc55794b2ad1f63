"""Executes the modules of /repo/composipy from source in a private module universe per path."""
import builtins as _b
import os
import types
import sys
import ast

from . import shims as H
from . import sym as S

REPO = os.environ.get('VERIF_REPO', '/repo')
_code = {}


def code_of(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    c = _code.get(k)
    if c is None:
        import warnings
        with open(path, encoding='utf-8') as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c = _code[k] = compile(src, path, 'exec')
    return c


_np = None
_math = None


class Universe:
    def __init__(self, root=None):
        global _np, _math
        if _np is None:
            _np = H.make_numpy()
            _math = H.make_math()
        self.root = root or REPO
        self.mods = {}
        self.minimize_log = H.Log()
        self.plot_log = []
        self.opens = []
        self.ext = self._externals()
        d = dict(vars(_b))
        d.update(float=H.SFloat, int=H.SInt, round=H.s_round, eval=H.s_eval, sum=H.s_sum, print=self._print,
                 __import__=self._import)
        self.builtins = d

    def _print(self, *a, **k):
        for x in a:
            str(x)

    def _externals(self):
        import scipy.sparse
        import scipy.sparse.linalg
        import scipy.linalg
        import scipy.optimize
        N = H._NS
        sl = N('scipy.sparse.linalg', dict(eigsh=H.eigsh, inv=H.inv, spsolve=H.solve), scipy.sparse.linalg)
        sp = N('scipy.sparse', dict(linalg=sl, csr_matrix=H.sparse, csc_matrix=H.sparse, coo_matrix=H.sparse,
                                    csr_array=H.sparse, csc_array=H.sparse, coo_array=H.sparse, lil_matrix=H.sparse),
               scipy.sparse)
        import scipy.linalg as rl
        li = N('scipy.linalg', dict(eigh=H.eigh, inv=H.inv, solve=H.solve, det=H.det), rl)
        opt = N('scipy.optimize', dict(
            minimize=H.make_minimize(self.minimize_log), NonlinearConstraint=H.recorder('NonlinearConstraint'),
            LinearConstraint=H.recorder('LinearConstraint'), Bounds=H.recorder('Bounds')), scipy.optimize)
        import scipy
        sc = N('scipy', dict(sparse=sp, linalg=li, optimize=opt), scipy)
        plt = H.Chameleon(self.plot_log)
        mpl = _Any('matplotlib', dict(pyplot=plt, cm=H.Chameleon([]), colors=H.Chameleon([])))
        e = {'functools': H.make_functools(), 'numpy': _np, 'numpy.linalg': H.linalg, 'math': _math, 'cmath': H.make_cmath(), 'scipy': sc, 'scipy.sparse': sp, 'scipy.sparse.linalg': sl,
             'scipy.linalg': li, 'scipy.optimize': opt, 'matplotlib': mpl, 'matplotlib.pyplot': plt}
        return e

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'composipy':
            m = self.load(name)
            if not fromlist:
                return self.mods['composipy']
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and self._path(name + '.' + f):
                    self.load(name + '.' + f)
            return m
        if name == 'pandas':
            return H.patch_pandas()
        if top == 'matplotlib' or top == 'mpl_toolkits':
            if not fromlist and '.' not in name:
                return self.ext['matplotlib']
            if name == 'matplotlib':
                return self.ext['matplotlib']
            if name == 'matplotlib.pyplot':
                return self.ext[name] if fromlist else self.ext['matplotlib']
            return H.Chameleon([]) if fromlist else self.ext['matplotlib']
        if name in self.ext:
            return self.ext[name] if fromlist else self.ext[top]
        if top in ('numpy', 'scipy'):
            real = _b.__import__(name, None, None, ['x'], 0)
            ns = H._NS(name, {}, real)
            if not fromlist:
                return self.ext[top]
            for f in fromlist:
                getattr(ns, f)
            return ns
        return _b.__import__(name, None, None, fromlist, 0)

    def _path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isdir(p):
            return None, True
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        found = self._path(name)
        if not found:
            raise ModuleNotFoundError('No module named %r' % name)
        path, ispkg = found
        m = types.ModuleType(name)
        m.__builtins__ = self.builtins
        m.__package__ = name if ispkg else name.rsplit('.', 1)[0]
        m.__file__ = path
        if ispkg:
            m.__path__ = [os.path.join(self.root, *name.split('.'))]
        self.mods[name] = m
        if path:
            exec(code_of(path), m.__dict__)
            for k, v in list(m.__dict__.items()):
                if H.symtable(v):
                    m.__dict__[k] = H.SymTable(v)
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m


class _Any(types.ModuleType):
    def __init__(self, name, d):
        super().__init__(name)
        self.__dict__.update(d)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return H.Chameleon([])
