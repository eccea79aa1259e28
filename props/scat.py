"""Scattering tables calculated or loaded by the package, and the refractive index of water and ice."""
import importlib
import math
import numpy as np
import xarray as xr

MW = [5.7230e0, 2.2379e-2, -7.1237e-4, 5.0478e0, -7.0315e-2, 6.0059e-4, 3.6143e0, 2.8841e-2, 1.3652e-1, 1.4825e-3, 2.4166e-4]


def _water(w, T, split=True):
    """permittivity of pure water (Meissner and Wentz 2004), its real part and the size of its imaginary part"""
    f = 299792458.0 / (w * 1e-2) / 1e9
    es = (3.70886e4 - 8.2168e1 * T) / (4.21854e2 + T)
    e1 = MW[0] + MW[1] * T + MW[2] * T * T
    f1 = (45.0 + T) / (MW[3] + MW[4] * T + MW[5] * T * T)
    ei = MW[6] + MW[7] * T
    f2 = (45.0 + T) / (MW[8] + MW[9] * T + MW[10] * T * T)
    x, y = f / f1, f / f2
    if not split:
        e = (es - e1) / (1 + 1j * x) + (e1 - ei) / (1 + 1j * y) + ei
        return e.real, -e.imag
    return ((es - e1) / (1 + x * x) + (e1 - ei) / (1 + y * y) + ei,
            (es - e1) * x / (1 + x * x) + (e1 - ei) * y / (1 + y * y))


def refindex(env):
    """refractive index of water or ice: its square is the permittivity"""
    R = importlib.import_module('emc2.scattering.ref_index')
    w = env.param('w') or env.real('w', (), 0.1, 30.0)
    T = env.param('T')
    T = env.real('T', (), -20.0, 40.0) if T is None else T
    if env.param('ice'):
        rho = env.real('rho', (), 0.05, 0.92)
        m = env.returns('runs', R.calc_microwave_ref_index_ice, w, T, rho)
        re, im = 1 + 2 * rho, 8e-4 * (0.52 * rho + 0.62 * rho * rho)
    else:
        m = env.returns('runs', R.calc_microwave_ref_index, w, T)
        re, im = _water(w, T, env.param('T') is not None)
    n, k = m.real, m.imag
    if env.param('T') is None and not env.param('ice'):
        mod = env.xp.sqrt(re * re + im * im)
        env.check('refraction', env.close(n, env.xp.sqrt((mod + re) / 2)))
        env.check('absorption', env.close(k, env.xp.sqrt((mod - re) / 2)))
        return
    env.check('positive refraction and absorption', env.and_(n >= 0, k >= 0))
    env.check('real part of the permittivity', env.close(n * n - k * k, re, rtol=1e-6, atol=1e-9))
    env.check('imaginary part of the permittivity', env.close((2 * n * k) ** 2, im * im, rtol=1e-6, atol=1e-12))


def spheres(env):
    """cross sections of calculated spheres: efficiency times geometric cross section, all in SI units"""
    Mod = importlib.import_module('emc2.scattering.mie_scattering')
    n, what = env.param('n', 2), env.param('what', 'water')
    lo = env.real('lo', (), 1.0, 100.0)
    D = lo + env.xp.cumsum(env.real('dD', (n,), 0.5, 100.0)) if not env.param('even') else None
    w, T, P = env.param('w', 0.86), env.param('T', -10.0), env.param('P', 850.0)
    rho = env.param('rho', 0.5)
    q = {k: env.real(k, (n,), 1e-4, 4.0) for k in ('qext', 'qsca', 'qabs', 'g', 'qpr', 'qback', 'qratio')}
    seen = {}

    def mie(m, wavelength, nMedium=1.0, diameterRange=(10, 1000), nd=1000, logD=False):
        seen.update(m=m, w=wavelength, med=nMedium, rng=diameterRange, nd=nd)
        return [D * 1000.0] + [q[k] for k in ('qext', 'qsca', 'qabs', 'g', 'qpr', 'qback', 'qratio')]
    old = {k: getattr(Mod, k, None) for k in ('MieQ_withDiameterRange', 'PYMIESCAT_AVAILABLE', 'xr')}

    class XR:
        def __getattr__(s, name):
            return getattr(xr, name)

        def Dataset(s, d=None, *a, **kw):       # a bare column is not made the index of its own dimension
            return xr.Dataset({c: (c + '_', v) if hasattr(v, 'shape') and not hasattr(v, 'dims') else v
                               for c, v in (d or {}).items()}, *a, **kw)
    Mod.MieQ_withDiameterRange, Mod.PYMIESCAT_AVAILABLE, Mod.xr = mie, True, XR()
    try:
        ds = env.returns('runs', getattr(Mod, 'scat_properties_' + what), D, w, T, P, **({} if what == 'water' else dict(rho_d=rho)))
    finally:
        for k, v in old.items():
            setattr(Mod, k, v) if v is not None else Mod.__dict__.pop(k, None)
    R = importlib.import_module('emc2.scattering.ref_index')
    m = R.calc_microwave_ref_index(w, T) if what == 'water' else R.calc_microwave_ref_index_ice(w, T, rho)
    env.check('wavelength in nm', env.close(seen['w'], w * 1e7))
    env.check('refractive index', env.close(seen['m'].real, m.real))
    env.check('absorption', env.close(seen['m'].imag, m.imag))
    env.check('refractive index of air', env.close((seen['med'] - 1.0) * 1e6, 77.6 * P / (T + 273.15), rtol=1e-3))
    env.check('number of sizes', int(seen['nd']) == n)
    env.check('range of sizes in nm', env.and_(env.close(seen['rng'][0], D[0] * 1000.0), env.close(seen['rng'][1], D[n - 1] * 1000.0)))
    v = {k: env.values_of(ds[k]) for k in ('alpha_p', 'scat_p', 'beta_p', 'ext_eff', 'scat_eff', 'backscat_eff',
                                           'size_parameter', 'p_diam', 'wavelength', 'compre_real', 'compre_im')}
    for i in range(n):
        A = math.pi / 4 * (D[i] * 1e-6) ** 2
        env.check('diameter in m', env.close(v['p_diam'][i], D[i] * 1e-6))
        env.check('wavelength in um', env.close(v['wavelength'][i], w * 1e4))
        env.check('efficiencies', env.and_(v['ext_eff'][i] == q['qext'][i], v['scat_eff'][i] == q['qsca'][i],
                                           v['backscat_eff'][i] == q['qback'][i]))
        env.check('extinction cross section', env.close(v['alpha_p'][i] * 1e12, q['qext'][i] * A * 1e12))
        env.check('scattering cross section', env.close(v['scat_p'][i] * 1e12, q['qsca'][i] * A * 1e12))
        env.check('backscattering cross section', env.close(v['beta_p'][i] * 1e12, q['qback'][i] * A * 1e12))
        env.check('size parameter is pi D over the wavelength', env.close(v['size_parameter'][i] * (w * 1e4), math.pi * D[i]))
        env.check('refractive index relative to air', env.and_(env.close(v['compre_real'][i], m.real, rtol=1e-3),
                                                               env.close(v['compre_im'][i], m.imag, rtol=1e-3)))


def axis_ratio(env):
    """shape of rain drops"""
    Mod = importlib.import_module('emc2.scattering.mie_scattering')
    D = env.real('D', (2,), 0.0, 8.0)
    r = env.returns('runs', Mod.brandes, D)
    for i in range(2):
        x = D[i]
        env.check('polynomial of Brandes et al. (2005)', env.close(
            r[i], 0.9951 + 0.0251 * x - 0.03644 * x ** 2 + 0.005303 * x ** 3 - 0.0002492 * x ** 4, atol=1e-9))


def load(env):
    """the tables of an instrument are those of its name, of the phase and of the temperature, in the right units"""
    Mod = importlib.import_module('emc2.core.instrument')
    inst, cls = env.param('inst', 'KAZR'), env.param('cls', 'radar')
    cold, args = env.param('cold', True), env.param('args', [])
    ins = Mod.Instrument(frequency=35.0 * Mod.ureg.GHz)
    ins.instrument_str, ins.instrument_class = inst, cls
    SQ = ["beta_p", "alpha_p", "A", "A_tot_norm", "A_tot_Mie_norm", "beta_p_eq_VdivA", "alpha_p_eq_VdivA", "A_tot_eq_VdivA_norm",
          "beta_p_eq_V", "alpha_p_eq_V", "A_tot_eq_V_norm"]
    x = {k: env.real(k, (2,), 1e-3, 1e6) for k in SQ + ['V', 'D_eq_VdivA_sphere', 'D_eq_vol_sphere', 'd', 'Q_ext', 'vt', 'Z']}
    bad = env.bool('bad', (2,), split=True)
    un = dict({k: 'um^2' for k in SQ}, V='um^3', D_eq_VdivA_sphere='um', D_eq_vol_sphere='um', d='um')
    import os

    def mark(kind):
        def f(name, *a, **k):
            t = xr.Dataset()
            t.attrs.update(kind=kind, file=os.path.basename(str(name)), dir=os.path.basename(os.path.dirname(str(name))),
                           a=list(a), k=dict(k))
            return t
        return f

    def nc(name, *a, **k):
        t = mark('nc')(name)
        if 'p3' in t.attrs['file']:
            for n, v in x.items():
                v = v + 0.0
                if n == 'vt' and not (bad[0] and bad[1]):
                    v = env.ite(bad, np.nan, v)
                t[n] = xr.DataArray(v, dims='d_', attrs=dict(units=un.get(n, '1')))
        return t
    if bad[0] and bad[1]:
        return
    old = {k: Mod.__dict__[k] for k in ('load_mie_file', 'load_scat_file', 'load_bulk_scat_file', 'xr')}

    class XR:
        def __getattr__(s, n):
            return nc if n == 'open_dataset' else getattr(xr, n)
    Mod.load_mie_file, Mod.load_scat_file, Mod.load_bulk_scat_file = mark('mie'), mark('scat'), mark('bulk')
    Mod.xr = XR()
    try:
        env.returns('runs', ins.load_instrument_scat_files, cold, *args)
    finally:
        Mod.__dict__.update(old)
    c = '_c' if cold and inst not in ('RL', 'HSRL') else ''
    want = {('mie_table', 'cl'): ('mie', 'Mie%s_liq%s.dat' % (inst, c)), ('mie_table', 'pl'): ('mie', 'Mie%s_liq%s.dat' % (inst, c)),
            ('mie_table', 'ci'): ('mie', 'Mie%s_ci.dat' % inst),
            ('mie_table', 'pi'): ('mie', 'Mie%s_pi%s.dat' % (inst, '1' if 'DHARMA' in args else '')),
            ('scat_table', 'E3_ice'): ('scat', 'C6_%s_8col_agg_rough_270K.dat' % inst),
            ('scat_table', 'CESM_ice'): ('scat', 'mDAD_%s_ice.dat' % inst),
            ('bulk_table', 'E3_ice'): ('bulk', 'bulk_%s_C6PSD_c6_8col_ice_agg_rough_270K.dat' % inst),
            ('bulk_table', 'E3_liq'): ('bulk', 'bulk_%s_C6PSD_mie_liq%s.dat' % (inst, c)),
            ('bulk_table', 'mie_ice_E3_PSD'): ('bulk', 'bulk_%s_C6PSD_mie_ice.dat' % inst),
            ('bulk_table', 'CESM_ice'): ('bulk', 'bulk_%s_mDAD_mDAD_ice_263K.dat' % inst),
            ('bulk_table', 'CESM_liq'): ('nc', 'bulk_%s_mDAD_mie_liq%s.nc' % (inst, c)),
            ('bulk_table', 'mie_ice_CESM_PSD'): ('bulk', 'bulk_%s_mDAD_mie_ice.dat' % inst),
            ('bulk_table', 'p3_liq'): ('nc', 'bulk_%s_mDAD_mie_liq%s.nc' % (inst, c))}
    for (tab, key), (kind, file) in want.items():
        t = getattr(ins, tab).get(key)
        env.check('table %s %s' % (tab, key), t is not None and t.attrs.get('kind') == kind and t.attrs.get('file') == file)
        given = list(t.attrs['a']) + list(t.attrs['k'].values())
        if kind in ('scat', 'bulk'):
            env.check('columns of the file', ('mDAD' in given) == ('CESM' in key))
        if kind == 'scat':
            env.check('frequency or wavelength', [g for g in given if isinstance(g, bool)] == [cls == 'radar'])
    p = ins.scat_table['p3_ice']
    env.check('one table for P3 ice', p.attrs['file'] == 'emc2_p3_ice_lut_abrv_full_%s.nc' % inst)
    for k in ('p3_ice', 'mie_ice_P3_PSD'):
        env.check('P3 ice has its table', k in ins.bulk_table)

    for i in range(2):
        def at(n, t=p):
            return env.values_of(t[n])[i]
        for n in SQ:
            env.check('areas and cross sections in m2', env.close(at(n) * 1e12, x[n][i]))
        env.check('volume in m3', env.close(at('V') * 1e18, x['V'][i]))
        for n in ('D_eq_VdivA_sphere', 'D_eq_vol_sphere'):
            env.check('diameters in m', env.close(at(n) * 1e6, x[n][i]))
        env.check('diameters in m', env.close(at('p_diam') * 1e6, x['d'][i]))
        for n in ('Q_ext', 'Z'):
            env.check('others as they are', at(n) == x[n][i])
        lo = [x['vt'][j] for j in range(2) if not bad[j]]
        low = lo[0] if len(lo) == 1 else env.xp.minimum(lo[0], lo[1])
        env.check('fall speeds, the smallest where none is given', env.close(at('vt'), low if bad[i] else x['vt'][i]))
        for k in ('p3_ice', 'mie_ice_P3_PSD'):
            for n in ('A_tot_norm', 'A_tot_eq_V_norm', 'Q_ext'):
                env.check('bulk table of P3 ice is the same', at(n, ins.bulk_table[k]) == at(n))
    for n, u in un.items():
        if n != 'd':
            env.check('units say so', p[n].attrs.get('units') == u.replace('um', 'm'))


HARNESSES = dict(refindex=refindex, spheres=spheres, axis_ratio=axis_ratio, load=load)
T = dict(tiers=('thorough',))
PROPERTIES = {
    'C47': dict(
        bounds='tables of 2 rows, values in [1e-3, 1e6], fall speed missing in any; every instrument of the package, at both '
               'temperatures',
        configs=[('load', {}, {}), ('load', dict(cold=False), {}), ('load', dict(inst='HSRL', cls='lidar'), {}),
                 ('load', dict(inst='WACR', args=['DHARMA']), {}), ('load', dict(inst='1064nm', cls='lidar'), {}),
                 ('load', dict(inst='RL', cls='lidar', cold=False), {})] + [
                 ('load', dict(inst=i, cls=k), {}) for i, k in (('CEIL', 'lidar'), ('NEXRAD', 'radar'), ('KAZR', 'radar'), ('XSACR', 'radar'), ('CSAPR', 'radar'))],
        assumptions=['reading a file gives the numbers in it (C42)']),
    'C48': dict(
        bounds='wavelength in [0.1, 30] cm, temperature in [-20, 40] C, density in [0.05, 0.92] g/cm3; 2 sizes (thorough: 4) in '
               '[1.5, 500] um, efficiencies in [1e-4, 4]',
        configs=[('refindex', {}, {}), ('refindex', dict(T=-10.0), {}), ('refindex', dict(T=20.0), {}), ('refindex', dict(ice=True), {}), ('spheres', {}, {}), ('spheres', dict(what='ice'), {}),
                 ('spheres', dict(what='ice', w=3.2, T=-2.0, P=500.0, rho=0.1), {}), ('axis_ratio', {}, {}),
                 ('spheres', dict(n=4, w=0.32, T=20.0), T), ('spheres', dict(n=4, what='ice'), T)],
        assumptions=['the efficiencies themselves come from PyMieScatt and are arbitrary']),
}
