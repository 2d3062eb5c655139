"""Two copies of the pvlib package from /repo's working tree: REAL (untouched,
for replaying counterexamples) and SYM (same source, with `np` and a few scipy
entry points replaced by symbolic stand-ins)."""
import ast
import importlib
import importlib.machinery
import os
import sys
import types
import warnings

REPO = os.environ.get('PVLIB_REPO', '/repo')
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.pop('PVLIB_USE_NUMBA', None)

MODS = ['pvlib', 'pvlib.tools', 'pvlib.irradiance', 'pvlib.iam', 'pvlib.inverter',
        'pvlib.transformer', 'pvlib.snow', 'pvlib.soiling', 'pvlib.albedo', 'pvlib.atmosphere',
        'pvlib.tracking', 'pvlib.shading', 'pvlib.scaling', 'pvlib.location', 'pvlib.temperature',
        'pvlib.bifacial', 'pvlib.bifacial.infinite_sheds', 'pvlib.bifacial.utils',
        'pvlib.bifacial.loss_models', 'pvlib.bifacial.ants2d', 'pvlib.singlediode', 'pvlib.pvarray',
        'pvlib.pvsystem', 'pvlib.solarposition', 'pvlib.clearsky', 'pvlib.modelchain', 'pvlib.spa',
        'pvlib.ivtools.utils', 'pvlib.ivtools.sde', 'pvlib.spectrum', 'pvlib.spectrum.mismatch',
        'pvlib.spectrum.irradiance', 'pvlib.spectrum.response', 'pvlib.spectrum.spectrl2',
        'pvlib.ivtools.sdm', 'pvlib.iotools']


class _Calls(ast.NodeTransformer):
    """float(x), isinstance(x, T) and set(x) in pvlib accept symbolic values"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('float', 'isinstance', 'int') and n.args:
            n.func = ast.copy_location(ast.Name('__pvsym_%s__' % n.func.id, ast.Load()), n.func)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            f = ast.copy_location(ast.Name('__pvsym_fmt__', ast.Load()), n)
            return ast.copy_location(ast.Call(f, [n.left, n.right], []), n)
        return n

    def visit_Name(self, n):
        if n.id in ('set', 'frozenset') and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Name('__pvsym_%s__' % n.id, ast.Load()), n)
        return n


def _sym_float(x=0.0):
    from . import core, symnp
    if isinstance(x, symnp.SArr):
        x = x.view(symnp.np.ndarray).reshape(-1)
        if len(x) != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        x = x[0]
    return x if core.issym(x) else float(x)


def _sym_int(x=0, *a):
    from . import core, symnp
    if isinstance(x, symnp.SArr):
        return _sym_int(_sym_float(x), *a)
    if isinstance(x, core.SV):
        return core.trunc(x)
    return int(x, *a)


def _sym_fmt(s, args):
    """text of messages does not show symbolic values"""
    from . import core
    f = lambda x: 0.0 if core.issym(x) else x
    return s % (tuple(f(x) for x in args) if isinstance(args, tuple) else f(args))


def _sym_isinstance(x, t):
    from . import core
    if isinstance(x, core.SV):
        ts = t if isinstance(t, tuple) else (t,)
        import numbers
        import numpy as np
        return any(y in (float, np.float64, np.floating, np.number, np.generic, numbers.Number,
                         numbers.Real, core.SV) for y in ts)
    return isinstance(x, t)


def _load_sym():
    import builtins
    builtins.__pvsym_float__ = _sym_float
    builtins.__pvsym_isinstance__ = _sym_isinstance
    builtins.__pvsym_int__ = _sym_int
    builtins.__pvsym_fmt__ = _sym_fmt
    from . import symdict
    L = importlib.machinery.SourceFileLoader
    old = L.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if not path.startswith(os.path.join(REPO, 'pvlib')):
            return old(self, fullname)
        tree = ast.parse(self.get_data(path), path)
        return compile(ast.fix_missing_locations(_Calls().visit(tree)), path, 'exec', dont_inherit=True)
    L.get_code = get_code
    try:
        return _load()
    finally:
        L.get_code = old


def _load():
    for k in [k for k in sys.modules if k == 'pvlib' or k.startswith('pvlib.')]:
        del sys.modules[k]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pv = importlib.import_module('pvlib')
        for m in MODS:
            try:
                importlib.import_module(m)
            except ImportError:
                pass
    mods = {k: v for k, v in sys.modules.items() if k == 'pvlib' or k.startswith('pvlib.')}
    return pv, mods


REAL, REAL_MODS = _load()
SYM, SYM_MODS = _load_sym()
if not REAL.__file__.startswith(REPO):
    raise SystemExit('pvlib was not loaded from %s but from %s' % (REPO, REAL.__file__))


def activate(which):
    mods = SYM_MODS if which == 'sym' else REAL_MODS
    for k in [k for k in sys.modules if k == 'pvlib' or k.startswith('pvlib.')]:
        if k not in mods:
            mods.setdefault(k, sys.modules[k])
    sys.modules.update(mods)


def _patch():
    import numpy as np
    import scipy.special
    import scipy.optimize
    from . import symnp, stubs
    for name, mod in SYM_MODS.items():
        g = vars(mod)
        for k, v in list(g.items()):
            if v is np:
                g[k] = symnp.NP
            elif isinstance(v, np.ufunc) and getattr(np, v.__name__, None) is v:
                g[k] = getattr(symnp.NP, v.__name__)
            elif callable(v) and getattr(v, '__module__', None) in ('numpy',) and \
                    not isinstance(v, type) and getattr(np, getattr(v, '__name__', ''), None) is v:
                g[k] = getattr(symnp.NP, v.__name__)
            else:
                try:
                    s = stubs.STUBS.get(v)
                except TypeError:
                    s = None
                if s is not None:
                    g[k] = s
                elif isinstance(v, types.ModuleType) and v.__name__ in ('scipy', 'scipy.special', 'scipy.optimize'):
                    g[k] = stubs.ScipyShim(v)


_patch()
