"""The scipy functions that code working on model columns is likely to call, on symbolic arguments"""
import math
import numpy as np
from .alg import Sym
from .arr import SymArray, wrap
from .ctx import Unsupported

ORIG = {}


def _sym(o):
    if isinstance(o, (SymArray, Sym)):
        return True
    if isinstance(o, (list, tuple)):
        return any(_sym(x) for x in o)
    if type(o).__module__.startswith('xarray'):
        return isinstance(getattr(o, 'values', None), SymArray)
    return False


def _val(o):
    return o.values if type(o).__module__.startswith('xarray') else o


def _dispatch(orig, impl):
    def f(*a, **k):
        if any(_sym(o) for o in a) or any(_sym(o) for o in k.values()):
            return impl(*[_val(o) for o in a], **{n: _val(o) for n, o in k.items()})
        return orig(*a, **k)
    f.__name__ = f.__qualname__ = orig.__name__
    return f


def trapezoid(y, x=None, dx=1.0, axis=-1):
    from .symnp import SYMNP as xp
    return xp.trapz(y, x=x, dx=dx, axis=axis)


def _parts(y, x, dx, axis):
    from .symnp import SYMNP as xp
    y = wrap(y)
    axis = axis % y.ndim
    hi = tuple(slice(1, None) if i == axis else slice(None) for i in range(y.ndim))
    lo = tuple(slice(None, -1) if i == axis else slice(None) for i in range(y.ndim))
    if x is None:
        d = dx
    else:
        x = wrap(x)
        if x.ndim == 1 and y.ndim > 1:
            d = xp.diff(x)
            d = xp.reshape(d, tuple(d.shape[0] if i == axis else 1 for i in range(y.ndim)))
        else:
            d = xp.diff(x, axis=axis)
    return y, axis, (y[hi] + y[lo]) * 0.5 * d


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    from .symnp import SYMNP as xp
    y, axis, p = _parts(y, x, dx, axis)
    r = xp.cumsum(p, axis=axis)
    if initial is not None:
        sh = list(r.shape)
        sh[axis] = 1
        r = xp.concatenate([xp.full(tuple(sh), initial, dtype=float), r], axis=axis)
    return r


def gammaln(x, *a, **k):
    from .symnp import SYMNP as xp
    return xp.log(ORIG['g'](x))


def interp1d_factory(real):
    class interp1d:
        def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=math.nan,
                     assume_sorted=False):
            x, y = _val(x), _val(y)
            self.real = None
            if not _sym(x) and not _sym(y):
                self.real = real(x, y, kind=kind, axis=axis, copy=copy, bounds_error=bounds_error,
                                 fill_value=fill_value, assume_sorted=assume_sorted)
            self.k = (x, y, kind, bounds_error, fill_value, assume_sorted)

        def __call__(self, q):
            from .symnp import SYMNP as xp
            x, y, kind, be, fv, srt = self.k
            if self.real is not None and not _sym(q):
                return self.real(q)
            if kind not in ('linear', 'slinear') or wrap(y).ndim != 1 or _sym(x):
                raise Unsupported('interp1d with these options')
            x = np.asarray(x, dtype=float)
            y = wrap(y)
            if not srt:
                o = np.argsort(x, kind='stable')
                x, y = x[o], y[o]
            q = wrap(_val(q))
            ext = isinstance(fv, str) and fv == 'extrapolate'
            if ext:
                r = xp.interp(q, x, y)
                lo = y[0] + (q - x[0]) * ((y[1] - y[0]) / (x[1] - x[0]))
                hi = y[-1] + (q - x[-1]) * ((y[-1] - y[-2]) / (x[-1] - x[-2]))
                return xp.where(q < x[0], lo, xp.where(q > x[-1], hi, r))
            if be is None:
                be = not isinstance(fv, tuple) and isinstance(fv, float) and math.isnan(fv)
            if be and xp.any((q < x[0]) | (q > x[-1])):
                raise ValueError('A value in x_new is outside the interpolation range.')
            left, right = fv if isinstance(fv, tuple) else (fv, fv)
            return xp.interp(q, x, y, left=left, right=right)
    interp1d.__module__ = 'scipy.interpolate'
    return interp1d


def patch(gamma):
    """replace the functions in scipy's own modules, so that an import inside a function sees them too"""
    import scipy.integrate as si
    import scipy.special as sp
    import scipy.interpolate as sin
    if ORIG:
        return
    ORIG['gamma'] = sp.gamma
    ORIG['g'] = gamma
    for m, nm, impl in ((si, 'trapezoid', trapezoid), (si, 'cumulative_trapezoid', cumulative_trapezoid),
                        (sp, 'gammaln', gammaln)):
        ORIG[nm] = getattr(m, nm)
        setattr(m, nm, _dispatch(ORIG[nm], impl))
    ORIG['interp1d'] = sin.interp1d
    sin.interp1d = interp1d_factory(ORIG['interp1d'])
    from .symnp import grid_interpolator
    ORIG['RegularGridInterpolator'] = sin.RegularGridInterpolator
    sin.RegularGridInterpolator = grid_interpolator(sin.RegularGridInterpolator)
    sp.gamma = gamma
