"""Instruments, scattering tables and statistics for display."""
import math
import numpy as np
import xarray as xr
from .common import base_model, put, set_N, da

C = 299792458.0


def wave(env):
    """frequency and wavelength of an instrument"""
    I = env.emc2.core.instrument
    u = I.ureg
    by = env.param('by', 'GHz')
    x = env.real('x', (), 0.1, 1000.0)
    if by in ('GHz', 'MHz', 'Hz'):
        ins = env.returns('runs', lambda: I.Instrument(frequency=x * getattr(u, by)))
        f = x * {'GHz': 1e9, 'MHz': 1e6, 'Hz': 1.0}[by]
        env.check('frequency in Hz', env.close(ins.freq, f))
        env.check('wavelength in um', env.close(ins.wavelength * f, C * 1e6))
    else:
        ins = env.returns('runs', lambda: I.Instrument(wavelength=x * getattr(u, by)))
        w = x * {'micrometer': 1e-6, 'nanometer': 1e-9, 'centimeter': 1e-2}[by]
        env.check('wavelength in um', env.close(ins.wavelength, w * 1e6))
        env.check('frequency in Hz', env.close(ins.freq * w, C))


def _table(env, names, n):
    """a file of numbers, as pandas reads it"""
    import pandas as pd
    v = {}
    for k in names:
        v[k] = env.real(k, (n,), 1e-3, 1e3)

    def frame(cols):
        d = pd.DataFrame()
        for i, c in enumerate(cols):
            x = v[names[i]]
            d[c] = pd.Series([x[j] for j in range(n)], dtype=object if env.symbolic else float)
        return d
    return v, frame


class _Csv:
    """pandas.read_csv answered with given numbers"""

    def __init__(self, mod, frame, ncol):
        self.mod, self.frame, self.ncol = mod, frame, ncol

    def __enter__(self):
        import pandas as pd
        self.old = self.mod.pd
        frame, ncol = self.frame, self.ncol

        class PD:
            def __getattr__(s, n):
                if n == 'read_csv':
                    def read(fn, names=None, **k):
                        assert len(names) == ncol, 'the file has %d columns' % ncol
                        return frame(names)
                    return read
                return getattr(pd, n)
        self.mod.pd = PD()

    def __exit__(self, *a):
        self.mod.pd = self.old


def _col(env, ds, name):
    x = ds[name].values
    return env.xp.array(x.tolist()) if env.symbolic and getattr(x, 'dtype', None) == object else x


def tables(env):
    """the columns of the table files in SI units"""
    what, n = env.param('what', 'mie'), env.param('n', 2)
    import importlib
    p4 = 4 * math.pi
    if what == 'mie':
        mod = importlib.import_module('emc2.io.load_mie_file')
        cols = ['wavelength', 'radius', 'size', 'm_re', 'm_im', 'csca', 'cext', 'cbak', 'qsca', 'qext', 'qbak']
        want = dict(wavelength=('wavelength', 1.0), p_diam=('radius', 2e-6), size_parameter=('size', 1.0),
                    compre_real=('m_re', 1.0), compre_im=('m_im', 1.0), scat_p=('csca', 1e-12), alpha_p=('cext', 1e-12),
                    beta_p=('cbak', 1e-12 / p4), scat_eff=('qsca', 1.0), ext_eff=('qext', 1.0), backscat_eff=('qbak', 1 / p4))
        fn, a = mod.load_mie_file, ('f',)
    elif what in ('C6', 'mDAD'):
        mod = importlib.import_module('emc2.io.load_scat_file')
        radar = env.param('radar', True)
        cols = ['wave', 'D', 'D_A', 'D_V'] + (['D_VA'] if what == 'mDAD' else []) + ['V', 'A', 'cbak', 'csca', 'cext'] + \
            (['cross'] if what == 'C6' else [])
        want = {('frequency' if radar else 'wavelength'): ('wave', 1.0)}
        want.update(p_diam=('D', 1e-6), p_diam_eq_A=('D_A', 1e-6), p_diam_eq_V=('D_V', 1e-6), V=('V', 1e-18),
                    A=('A', 1e-12), beta_p=('cbak', 1e-12), scat_p=('csca', 1e-12), alpha_p=('cext', 1e-12))
        if what == 'C6':
            want.update(beta_p_cross=('cross', 1e-12))
        else:
            want.update(p_diam_eq_VdivA=('D_VA', 1e-6))
        fn, a = mod.load_scat_file, ('f', radar) + (() if what == 'C6' else (what,))
    else:
        mod = importlib.import_module('emc2.io.load_bulk_scat_file')
        if what == 'bulk_C6':
            cols = ['r', 'qs', 'qe', 'qb', 'qx', 'ldr', 'lr']
            want = dict(r_e=('r', 1.0), Q_scat=('qs', 1.0), Q_ext=('qe', 1.0), Q_back=('qb', 1.0), Q_back_cross=('qx', 1.0),
                        LDR=('ldr', 1.0), lidar_ratio=('lr', 1.0))
        else:
            cols = ['D', 'qs', 'qe', 'qb', 'lr']
            want = dict(D_e=('D', 1.0), r_e=('D', 0.5), Q_scat=('qs', 1.0), Q_ext=('qe', 1.0), Q_back=('qb', 1.0),
                        lidar_ratio=('lr', 1.0))
        fn, a = mod.load_bulk_scat_file, ('f',) + (() if what == 'bulk_C6' else ('mDAD',))
    v, frame = _table(env, cols, n)
    with _Csv(mod, frame, len(cols)):
        ds = env.returns('reads', fn, *a)
    for k, (c, f) in want.items():
        env.check('column is there', k in ds.variables)
        env.check('column in its unit', env.close(_col(env, ds, k), v[c] * f))


def mean_sd(env):
    """mean and spread of what is present"""
    sh = tuple(env.param('sh', [2, 2]))
    geom = env.param('geom', False)
    ax = env.param('axis')
    ax = tuple(ax) if isinstance(ax, list) else ax
    g = env.bool('gone', sh, split=True)
    x = env.real('x', sh, 0.5, 4.0) if geom else env.real('x', sh, -4.0, 4.0)
    if geom and env.param('neg'):
        x = env.ite(env.bool('neg', sh, split=True), -1.0, x)
    v = env.ite(g, np.nan, x)
    f = env.emc2.plotting.SubcolumnDisplay.calc_mean_and_sd
    m, s = env.returns('runs', f, None, v, geom, ax)
    xp = env.xp
    m, s = xp.array(m), xp.array(s)
    axes = tuple(range(len(sh))) if ax is None else ((ax,) if isinstance(ax, int) else ax)
    keep = [i for i in range(len(sh)) if i not in axes]
    env.check('shape', tuple(m.shape) == tuple(sh[i] for i in keep) == tuple(s.shape))
    for o in np.ndindex(*[sh[i] for i in keep]):
        vals = []
        for i in np.ndindex(*sh):
            if tuple(i[k] for k in keep) == o:
                vals.append((i, g[i]))
        L = []
        for i, gi in vals:
            if gi:
                continue
            if geom and not (x[i] > 0):
                continue
            L.append(xp.log(x[i]) if geom else x[i])
        mm, ss = m[o], s[o]
        if not L:
            if not geom:
                env.check('nothing there, no mean', env.isnan(mm))
            continue
        mu = sum(L[1:], L[0]) / len(L)
        var = sum(((y - mu) ** 2 for y in L[1:]), (L[0] - mu) ** 2) / len(L)
        if geom:
            env.check('geometric mean of the positive values', env.close(xp.log(mm), mu, atol=1e-9))
            env.check('geometric spread', env.close(xp.log(ss), xp.sqrt(var), atol=1e-6))
        else:
            env.check('mean of the values present', env.close(mm, mu, atol=1e-12))
            env.check('standard deviation of the values present', env.close(ss, xp.sqrt(var), atol=1e-6))


HARNESSES = dict(wave=wave, tables=tables, mean_sd=mean_sd)
T = ('thorough',)
PROPERTIES = {
    'C42': dict(
        bounds='frequency or wavelength in [0.1, 1000] of its unit; tables of 3 rows (thorough: 5), values in [1e-3, 1e3]',
        configs=[('wave', {}, {}), ('wave', dict(by='MHz'), {}), ('wave', dict(by='Hz'), {}), ('wave', dict(by='micrometer'), {}),
                 ('wave', dict(by='nanometer'), {}), ('wave', dict(by='centimeter'), {})] + [
                     ('tables', dict(what=w, **k), {}) for w, k in (
                         ('mie', {}), ('C6', {}), ('C6', dict(radar=False)), ('mDAD', {}), ('mDAD', dict(radar=False)),
                         ('bulk_C6', {}), ('bulk_mDAD', {}))] + [
                     ('tables', dict(what=w, n=5), T) for w in ('mie', 'C6', 'mDAD', 'bulk_C6', 'bulk_mDAD')],
        assumptions=['pandas reads the numbers of the file into the columns named by the reader']),
}

