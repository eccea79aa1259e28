"""Load the real emc2 from the repository and run it on symbolic values.

The module source is executed as it is; only the names it imported for numpy,
math and dask.bag, and a few builtins, are rebound in the module globals.
"""
import builtins
import importlib
import importlib.util
import math
import os
import sys
import types
import warnings

REPO = os.environ.get('EMC2_REPO', '/repo')
Z3DIRS = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']


def load_z3():
    try:
        import z3
        return z3
    except ImportError:
        pass
    for d in Z3DIRS:
        p = os.path.join(d, 'z3', '__init__.py')
        if os.path.exists(p):
            spec = importlib.util.spec_from_file_location('z3', p, submodule_search_locations=[os.path.dirname(p)])
            m = importlib.util.module_from_spec(spec)
            sys.modules['z3'] = m
            spec.loader.exec_module(m)
            return m
    raise ImportError('z3 python bindings not found')


def load_emc2():
    """import the real package (no patches)"""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import io
    import contextlib
    if 'act' not in sys.modules and not os.environ.get('EMC2_REAL_ACT'):
        # the ARM reader is only used to open observation files; it is slow to import
        act = types.ModuleType('act')
        act.io = types.ModuleType('act.io')
        act.io.arm = types.ModuleType('act.io.arm')

        def read_arm_netcdf(*a, **k):
            raise IOError('file input is outside the encoding')
        act.io.arm.read_arm_netcdf = read_arm_netcdf
        act.plotting = types.ModuleType('act.plotting')
        act.plotting.Display = type('Display', (), {})
        act.__path__ = act.io.__path__ = []
        sys.modules.update({'act': act, 'act.io': act.io, 'act.io.arm': act.io.arm, 'act.plotting': act.plotting})
    with contextlib.redirect_stdout(io.StringIO()):
        import emc2
    return emc2


class Bag:
    """in-process stand-in for dask.bag: an ordered map"""

    def __init__(self, xs):
        self.xs = xs

    def map(self, f, *a, **k):
        return Bag([f(x, *a, **k) for x in self.xs])

    def filter(self, f):
        return Bag([x for x in self.xs if f(x)])

    def compute(self, *a, **k):
        return list(self.xs)

    def __iter__(self):
        return iter(self.xs)


class BagModule(types.ModuleType):
    Bag = Bag

    @staticmethod
    def from_sequence(seq, *a, **k):
        return Bag([x for x in seq])

    @staticmethod
    def map(f, *a, **k):
        bs = [x.xs if isinstance(x, Bag) else x for x in a]
        return Bag([f(*t) for t in zip(*bs)])


def _special(name):
    from . import symnp, alg

    def gamma(x):
        return symnp.elementwise1(symnp.s_gamma, x, 'f') if symnp.norm(x) is None else symnp.s_gamma(symnp.norm(x))
    if name == 'gamma':
        from . import symscipy
        if 'g' in symscipy.ORIG:
            return symscipy.ORIG['g']
        import scipy.special
        real = scipy.special.gamma

        def g(x, *a, **k):
            if hasattr(x, '_magnitude') or type(x).__module__.startswith('xarray'):
                return real(x)
            return gamma(x)
        return g
    return None


def patch_modules():
    import numpy as np
    from . import symnp
    from . import symscipy
    symscipy.patch(_special('gamma'))
    for mn, mod in list(sys.modules.items()):
        if not (mn == 'emc2' or mn.startswith('emc2.')) or mod is None:
            continue
        patch_one(mod, np, symnp, symscipy.ORIG)


def patch_one(mod, np, symnp, special):
    d = mod.__dict__
    for name, val in list(d.items()):
        if name.startswith('__'):
            continue
        if val is np:
            d[name] = symnp.SYMNP
        elif val is math:
            d[name] = symnp.SYMMATH
        elif val is np.random:
            d[name] = symnp.SYMNP.random
        elif isinstance(val, types.ModuleType) and val.__name__ == 'dask.bag':
            d[name] = BagModule('dask.bag')
        elif isinstance(val, types.ModuleType) and val.__name__ == 'functools':
            pass
        elif val is special['gamma']:
            d[name] = _special('gamma')
        elif any(val is special[k] for k in ('trapezoid', 'cumulative_trapezoid', 'gammaln', 'interp1d')):
            import scipy.integrate
            import scipy.interpolate
            import scipy.special
            for m in (scipy.integrate, scipy.special, scipy.interpolate):
                d[name] = getattr(m, val.__name__, d[name])
        elif isinstance(val, type) and val.__name__ == 'RegularGridInterpolator' and val.__module__.startswith('scipy.'):
            d[name] = symnp.grid_interpolator(val)
        elif callable(val) and not isinstance(val, type) and getattr(val, '__module__', None) in (
                'numpy', 'numpy.core.fromnumeric', 'numpy.core.numeric', 'numpy.lib.function_base', 'numpy.core.multiarray') \
                and getattr(np, getattr(val, '__name__', ''), None) is val:
            d[name] = getattr(symnp.SYMNP, val.__name__)
        elif isinstance(val, np.ufunc) and getattr(np, val.__name__, None) is val:
            d[name] = getattr(symnp.SYMNP, val.__name__)
        elif val is getattr(math, getattr(val, '__name__', '?'), None) and name in dir(math):
            d[name] = getattr(symnp.SYMMATH, val.__name__)
    for name, val in symnp.BUILTINS.items():
        if name not in d:
            d[name] = val


_patched = False


def patch_xarray():
    """let .values hand out the duck array instead of a numpy copy"""
    global _patched
    if _patched:
        return
    _patched = True
    import numpy as np
    import xarray as xr
    from xarray.core.variable import Variable
    from .alg import Sym
    from .arr import SymArray, wrap
    orig = Variable.values

    def get(self):
        dta = self._data
        if not isinstance(dta, SymArray):
            try:
                dta = self.data if not isinstance(dta, np.ndarray) else dta
            except Exception:
                pass
        if isinstance(dta, SymArray):
            return dta
        r = orig.fget(self)
        if r.dtype == object and r.size and any(isinstance(v, Sym) for v in r.reshape(-1)):
            return wrap(r)
        return r
    Variable.values = property(get, orig.fset)

    def keep(cls, nm):
        of = getattr(cls, nm)

        def f(self, *a, **k):
            v = self.values
            return v if isinstance(v, SymArray) else of(self, *a, **k)
        setattr(cls, nm, f)
    for cls in (Variable, xr.DataArray):
        keep(cls, 'to_numpy')

    # reductions that skip missing values
    from xarray.computation import nanops
    from .symnp import SYMNP

    def mkn(nm):
        of = getattr(nanops, nm)

        def f(a, axis=None, **kw):
            if isinstance(a, SymArray):
                mc = kw.get('min_count')
                kw = {k: v for k, v in kw.items() if k in ('ddof',)}
                r = getattr(SYMNP, nm)(a, axis=axis, **kw)
                if mc is not None:
                    r = SYMNP.where(SYMNP.sum(~SYMNP.isnan(a), axis=axis) >= mc, r, np.nan)
                return r
            return of(a, axis=axis, **kw)
        return f
    for nm in ('nanmin', 'nanmax', 'nanmean', 'nansum', 'nanstd', 'nanvar', 'nanmedian', 'nanprod'):
        if hasattr(nanops, nm):
            setattr(nanops, nm, mkn(nm))

    import xarray.core.formatting as fmt
    # repr / formatting of symbolic contents
    o2 = fmt.short_array_repr

    def sar(a):
        return '<symbolic>' if isinstance(a, SymArray) else o2(a)
    fmt.short_array_repr = sar

    import xarray.core.common as common
    for nm, conv in (('__bool__', None), ('__float__', None), ('__int__', None)):
        def mk(nm):
            of = getattr(common.AbstractArray, nm)

            def f(self):
                v = self.values
                if isinstance(v, SymArray):
                    return getattr(v, nm)()
                return of(self)
            return f
        setattr(common.AbstractArray, nm, mk(nm))


def setup():
    """z3 + emc2 + patches; returns the emc2 package"""
    z3 = load_z3()
    emc2 = load_emc2()
    import pint  # noqa
    from . import symnp, alg, arr  # noqa
    patch_xarray()
    patch_modules()
    # pint: recognise the duck array
    try:
        from pint import compat
        if hasattr(compat, 'upcast_type_map'):
            pass
    except ImportError:
        pass
    return emc2
