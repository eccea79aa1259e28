"""Model and instrument builders shared by the harnesses (work natively and symbolically)."""
import numpy as np
import xarray as xr

TYPES = ['cl', 'ci', 'pl', 'pi']


def da(x, dims, **attrs):
    d = xr.DataArray(x, dims=dims)
    d.attrs.update(attrs)
    return d


def base_model(env, types=TYPES, tdim='time', hdim='height', scheme='MG2', rad='E3SM', process_conv=True):
    """An empty Model of the package with the usual naming dictionaries."""
    emc2 = env.emc2
    m = emc2.core.Model()
    u = emc2.core.model.ureg
    T = list(types)
    rho = {'cl': 1000., 'ci': 500., 'pl': 1000., 'pi': 250., 'gr': 400., 'ha': 900., 'sn': 100.}
    m.Rho_hyd = {t: rho[t] * u.kg / (u.m ** 3) for t in T}
    m.fluffy = {t: 0.5 * u.dimensionless for t in T if t not in ('cl', 'pl')}
    lr = {'cl': 18., 'ci': 24., 'pl': 5.5, 'pi': 24.0, 'gr': 24., 'ha': 24., 'sn': 24.}
    m.lidar_ratio = {t: lr[t] * u.dimensionless for t in T}
    ld = {'cl': 0.03, 'ci': 0.35, 'pl': 0.1, 'pi': 0.40, 'gr': 0.4, 'ha': 0.4, 'sn': 0.4}
    m.LDR_per_hyd = {t: ld[t] * 1 / (u.kg / (u.m ** 3)) for t in T}
    va = {'cl': 3e7, 'ci': 700., 'pl': 841.997, 'pi': 11.72, 'gr': 19.3, 'ha': 206., 'sn': 12.42}
    vb = {'cl': 2., 'ci': 1., 'pl': 0.8, 'pi': 0.41, 'gr': 0.37, 'ha': 0.6, 'sn': 0.8}
    m.vel_param_a = {t: va[t] for t in T}
    m.vel_param_b = {t: vb[t] * u.dimensionless for t in T}
    m._add_vel_units()
    m.q_names_convective = {t: 'qc_' + t for t in T}
    m.q_names_stratiform = {t: 'qs_' + t for t in T}
    m.N_field = {t: 'N_' + t for t in T}
    m.conv_frac_names = {t: 'cf_' + t for t in T}
    m.strat_frac_names = {t: 'sf_' + t for t in T}
    m.conv_frac_names_for_rad = {t: 'cfr_' + t for t in T}
    m.strat_frac_names_for_rad = {t: 'sfr_' + t for t in T}
    m.conv_re_fields = {t: 're_c_' + t for t in T}
    m.strat_re_fields = {t: 're_s_' + t for t in T}
    m.q_field, m.p_field, m.z_field, m.T_field = 'qv', 'p', 'z', 'T'
    m.time_dim, m.height_dim = tdim, hdim
    m.mcphys_scheme, m.rad_scheme_family = scheme, rad
    m.model_name = 'harness'
    m.hyd_types = T
    m.process_conv = process_conv
    m.ds = xr.Dataset()
    return m


def put(m, name, x, sub=False, **attrs):
    dims = (m.time_dim, m.height_dim)
    if sub:
        dims = ('subcolumn',) + dims
    m.ds[name] = da(x, dims, **attrs)


def set_N(m, n):
    m.ds['subcolumn'] = xr.DataArray(np.arange(0, n), dims='subcolumn')


def instrument(env, kind, ghz=35.0, um=0.532):
    """a bare instrument of the package, without tables"""
    I = env.emc2.core.instrument
    u = I.ureg
    if kind == 'radar':
        ins = I.Instrument(frequency=ghz * u.GHz)
        ins.K_w = 0.88
        ins.eps_liq = (5.489262 + 2.8267679j) ** 2
        ins.Z_min_1km = -51.5
    else:
        ins = I.Instrument(wavelength=um * u.micrometer)
        ins.ext_OD = 4.0
        ins.eta = 1.0
    ins.instrument_class = kind
    ins.instrument_str = 'TST'
    return ins


def grid(env, m, nt, nz, t_units='kelvin', p_units='hPa', symbolic=('p', 'T', 'z')):
    """pressure (Pa, decreasing), temperature (K), height (m, increasing) and vapour; put into the model"""
    c = np.arange(nt)[:, None]  # the columns differ
    d = env.real('dz', (nt, nz), 10.0, 3000.0) if 'z' in symbolic else np.full((nt, nz), 700.0) * (1.0 + 0.0625 * c)
    Z = env.xp.cumsum(d, axis=1)
    if 'p' in symbolic:
        dp = env.real('dp', (nt, nz), 100.0, 9000.0)
        P = env.xp.flip(env.xp.cumsum(dp, axis=1), axis=1)
    else:
        P = np.tile(np.linspace(95000.0, 60000.0, nz), (nt, 1)) * (1.0 - 0.03125 * c)
    TK = env.real('T', (nt, nz), 230.0, 300.0) if 'T' in symbolic else np.tile(np.linspace(285.0, 250.0, nz), (nt, 1)) - 2.0 * c
    qv = np.full((nt, nz), 1e-3)
    km = env.param('z_units') == 'km'
    put(m, 'z', Z / 1000.0 if km else Z, units='km' if km else 'meter')
    put(m, 'p', P / 100.0 if p_units == 'hPa' else P, units=p_units)
    put(m, 'T', TK if t_units == 'kelvin' else TK - 273.15, units=t_units)
    put(m, 'qv', qv, units='kg/kg')
    return P, TK, Z, qv


def own(name):
    """a factor that tells the tables apart"""
    return 1.0 + 0.0625 * (sum((i + 1) * ord(c) for i, c in enumerate(name)) % 16)


def bulk_re(env, ins, name, sym=True):
    """a bulk scattering table against effective radius"""
    x = np.array([10.0, 25.0, 100.0])
    if sym:
        yb, ye = env.real('Qb_' + name, (3,), 0.01, 5.0), env.real('Qe_' + name, (3,), 0.5, 4.0)
    else:
        yb, ye = np.array([1.1, 0.7, 1.6]) * own(name), np.array([2.2, 2.05, 2.0]) * own(name)
    ins.bulk_table[name] = xr.Dataset({'r_e': (('r',), x), 'Q_back': (('r',), yb), 'Q_ext': (('r',), ye)})
    return x, yb, ye


def mie(env, ins, name, table='mie', sym=True, nd=3, diam='p_diam'):
    """a single-particle scattering table against diameter"""
    D = np.array([1e-5, 3e-5, 1e-4, 4e-4])[:nd]
    if sym:
        b, a = env.real('b_' + name, (nd,), 1e-14, 1e-9), env.real('a_' + name, (nd,), 1e-12, 1e-8)
    else:
        b, a = 1e-12 * (1.0 + np.arange(nd)) * own(table + name), 3e-11 * (1.0 + np.arange(nd)) ** 2 * own(name + table)
    ds = xr.Dataset({diam: (('d',), D), 'beta_p': (('d',), b), 'alpha_p': (('d',), a)})
    (ins.mie_table if table == 'mie' else ins.scat_table)[name] = ds
    return D, b, a


def decoys(env, m, N, nt, nz):
    """give every standard field that the harness has not set a definite value of its own, so that code that reads the
    wrong field is noticed"""
    T = ['cl', 'ci', 'pl', 'pi']
    n = 0

    def fill(name, x, sub=False):
        if name not in m.ds.variables:
            put(m, name, x, sub=sub)
    for t in T:
        for nm, base in (('cf_', 0.41), ('cfr_', 0.63), ('sf_', 0.27), ('sfr_', 0.86), ('qc_', 3e-4), ('qs_', 7e-4),
                         ('N_', 55.0), ('re_c_', 17.0), ('re_s_', 44.0)):
            n += 1
            fill(nm + t, np.full((nt, nz), base * (1 + 0.01 * n)))
        for pre in ('conv', 'strat') if N else ():
            n += 1
            mask = (np.arange(N * nt * nz).reshape((N, nt, nz)) + n) % 3 == 0
            fill('%s_frac_subcolumns_%s' % (pre, t), mask, sub=True)
            for nm, base in (('q', 2e-4), ('n', 33.0)):
                fill('%s_%s_subcolumns_%s' % (pre, nm, t), mask * base * (1 + 0.01 * n), sub=True)
    for nm, x in (('p', 750.0), ('T', 268.0), ('qv', 2e-3)):
        if nm not in m.ds.variables:
            put(m, nm, np.full((nt, nz), x), units={'p': 'hPa', 'T': 'kelvin', 'qv': 'kg/kg'}[nm])
    if 'z' not in m.ds.variables:
        put(m, 'z', np.tile(np.arange(1.0, nz + 1) * 311.0, (nt, 1)), units='meter')


def model_fields(m):
    """names of the model's own fields"""
    out = {m.p_field, m.T_field, m.z_field, m.q_field}
    for d in (m.q_names_convective, m.q_names_stratiform, m.N_field, m.conv_frac_names, m.strat_frac_names,
              m.conv_frac_names_for_rad, m.strat_frac_names_for_rad, m.conv_re_fields, m.strat_re_fields):
        out |= set(d.values())
    return sorted(x for x in out if x in m.ds.variables)


def call(env, m, shape, fn, *a, **k):
    """call fn on a model in which every field the harness leaves open has a value of its own; it must not raise, and
    with the parameter `frame` it must leave the model's own fields as they were"""
    N, nt, nz = shape
    if env.param('decoys', True):
        decoys(env, m, N if m.num_subcolumns else 0, nt, nz)
    if not env.param('frame'):
        return env.returns('runs', fn, *a, **k)
    names = model_fields(m)
    old = {n: env.xp.array(env.values_of(m.ds[n]), copy=True) for n in names}
    attrs = {n: dict(m.ds[n].attrs) for n in names}
    r = env.returns('runs', fn, *a, **k)
    for n in names:
        env.check('field still there', n in r.ds.variables)
        x = env.values_of(r.ds[n])
        env.check('field keeps its shape and unit', tuple(x.shape) == tuple(old[n].shape) and
                  r.ds[n].attrs.get('units') == attrs[n].get('units'))
        env.check('field keeps its values', env.close(x, old[n]))
    return r
