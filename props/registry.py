"""Properties -> harness configurations."""
import importlib

MODULES = ['subcol', 'radar', 'lidar', 'micro', 'same', 'classify', 'stats', 'data', 'sim', 'tables', 'plots', 'p3', 'scat']
HARNESSES = {}
PROPERTIES = {}

COMMON = ['floating point is treated as real arithmetic; comparisons of results allow the stated relative tolerance',
          'numpy, xarray, pint and dask themselves are trusted; dask.bag is an in-order map',
          'array shapes are the bounds stated; values are arbitrary within the stated ranges']


def prop(pid, bounds, configs, assumptions=()):
    PROPERTIES[pid] = dict(bounds=bounds, configs=configs, assumptions=COMMON + list(assumptions))


def cfg(harness, params=None, tiers=('quick', 'thorough'), **opts):
    return dict(harness=harness, params=params or {}, tiers=tiers, opts=opts)


for _m in MODULES:
    _mod = importlib.import_module('props.' + _m)
    for _k, _v in _mod.HARNESSES.items():
        assert _k not in HARNESSES, _k
        HARNESSES[_k] = _v
    for _pid, _p in _mod.PROPERTIES.items():
        assert _pid not in PROPERTIES, _pid
        prop(_pid, _p['bounds'], [cfg(h, p, **o) if not isinstance(o, tuple) else cfg(h, p, tiers=o)
                                  for h, p, o in _p['configs']], _p.get('assumptions', ()))
