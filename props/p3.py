"""Ice of the P3 scheme: properties looked up by rime fraction, rime density and particle mass."""
import itertools
import math
import numpy as np
import xarray as xr
from .common import base_model, put, set_N, instrument, grid, mie, call, da
from .micro import trapz, psd_ref
from .data import _Files, _at
from .radar import bulk_mulambda, interp_mulambda

PI = np.pi
FR, RR, QN = np.array([0.0, 1.0]), np.array([50.0, 900.0]), np.array([2.0 ** -40, 2.0 ** -20])
D = np.array([2e-5, 1e-4, 6e-4])

BULK = dict(Q_back_bulk=0.1, Q_ext_bulk=2.0, Q_back_Mie_bulk=0.7, Q_ext_Mie_bulk=2.6, A_tot_norm=3e-9, A_tot_eq_V_norm=5e-9,
            A_tot_Mie_norm=7e-9, A_tot_eq_VdivA_norm=9e-9, vt_m_weight=1.3, Z=1e-9, ri_eff=3e-5, Dm_m_weight=2e-4, rho_m_weight=300.0)
BULK['lambda'] = 2e4
SINGLE = dict(beta_p=1e-11, alpha_p=3e-10, beta_p_eq_V=2e-11, alpha_p_eq_V=5e-10, beta_p_eq_VdivA=4e-11, alpha_p_eq_VdivA=7e-10,
              vt=0.8, A=2e-9, V=3e-14, D_eq_vol_sphere=8e-5)


def values(name, shape):
    """table values that differ between the tables and along every dimension"""
    j = (sorted(BULK) + sorted(SINGLE)).index(name)
    i = np.indices(shape)
    base = BULK.get(name, SINGLE.get(name))
    v = 1.0 + (0.3 + 0.01 * j) * i[0] + (0.5 + 0.02 * j) * i[1] + (0.7 - 0.01 * j) * i[2] + 0.2 * i[0] * i[1] + 0.1 * i[1] * i[2]
    return base * (v if name != 'vt' else v + 0.4 * i[2] ** 2)


def table(env, ins):
    ds = xr.Dataset(coords={'Fr': FR, 'rho_r': RR, 'q_norm': QN})
    for k in BULK:
        ds[k] = (('Fr', 'rho_r', 'q_norm'), values(k, (2, 2, 2)))
    for k in SINGLE:
        ds[k] = (('Fr', 'rho_r', 'd'), values(k, (2, 2, len(D))))
    ds['p_diam'] = (('d',), D)
    ins.scat_table['p3_ice'] = ds
    ins.bulk_table['p3_ice'] = ds
    return ds


def look(env, name, fr, rr, last):
    """the tabulated quantity at a rime fraction, a rime density and a particle mass, or at the given size number"""
    a, b = fr, (rr - RR[0]) / (RR[1] - RR[0])
    sel = isinstance(last, int)
    v = values(name, (2, 2, len(D) if sel else 2))
    c = None if sel else (last - QN[0]) / (QN[1] - QN[0])
    r = 0.0
    for i, j in itertools.product((0, 1), (0, 1)):
        w = (a if i else 1.0 - a) * (b if j else 1.0 - b)
        x = v[i, j, last] if sel else v[i, j, 0] * (1.0 - c) + v[i, j, 1] * c
        r = r + w * x
    return r


def setup(env, kind, bulk):
    N, nt, nz = env.param('N', 1), env.param('nt', 1), env.param('nz', 1)
    hybrid, types = env.param('hybrid', 0), env.param('types', ['ci'])
    sh = (N, nt, nz)
    m = base_model(env, types=['cl', 'ci', 'pl', 'pi'], rad='P3', scheme='P3', process_conv=False)
    set_N(m, N)
    ins = instrument(env, kind)
    table(env, ins)
    P, TK, Z, qv = grid(env, m, nt, nz, symbolic=env.param('sym', []))
    m.p3_kws = dict(q_rim_name='CLDRIM', rim_vol_name='BVRIM', in_cld_Ni_name='in_cld_Ni', N0_ice_name='N0_norm_ice',
                    use_hybrid_scat=hybrid)
    m.mu_field, m.lambda_field = dict(cl=None, ci='mu_ice', pl=None, pi=None), dict(cl=None, ci='lambda_ice', pl=None, pi=None)
    if not env.param('fluffy', True):
        m.fluffy = None
    R = env.emc2.core.model.RegularGridInterpolator
    t = ins.scat_table['p3_ice']
    m.interpobj = {'single': {}, 'bulk': {}}
    for k in ('A_tot_norm', 'A_tot_eq_V_norm', 'A_tot_Mie_norm', 'vt_m_weight', 'Z', 'ri_eff', 'Dm_m_weight', 'rho_m_weight'):
        m.interpobj['bulk'][k] = R((FR, RR, QN), t[k].values, bounds_error=False)
    for k in ('vt', 'A', 'V') + (('D_eq_vol_sphere',) if hybrid else ()):
        m.interpobj['single'][k] = R((FR, RR, D), t[k].values, bounds_error=False)
    s2 = (nt, nz)
    sym = env.param('look', ['Fr', 'rho_r', 'qi_norm'])

    def f(name, lo, hi):
        x = env.real(name, s2, lo, hi) if name in sym else \
            np.linspace(0.3, 0.8, nt * nz).reshape(s2) * (hi - lo) + lo
        put(m, name, x)
        return x
    fr, rr, qn = f('Fr', 0.0, 1.0), f('rho_r', 50.0, 900.0), f('qi_norm', *QN)
    ni = env.real('Ni', s2, 1.0, 1e6)
    put(m, 'in_cld_Ni', ni)
    occ = {x: env.bool('occ_' + x, sh, split=True) for x in types}
    if env.param('gone'):
        # without ice the quantities per particle are not defined
        here = occ['ci'][0]
        for i in range(1, N):
            here = env.or_(here, occ['ci'][i])
        for n, x in (('Fr', fr), ('rho_r', rr), ('qi_norm', qn), ('in_cld_Ni', ni)):
            put(m, n, env.ite(here, x + 0.0 * ni, np.nan))
    q = {}
    for x in types:
        q[x] = env.real('q_' + x, sh, 1e-14, 1e-2) if x == 'ci' else np.full(sh, 3e-4)
        put(m, 'strat_q_subcolumns_' + x, env.ite(occ[x], q[x], 0.0), sub=True)
        put(m, 'strat_n_subcolumns_' + x, env.ite(occ[x], 1.0 + 1e4 * q[x], 0.0), sub=True)
        put(m, 'strat_frac_subcolumns_' + x, env.ite(occ[x], 1.0, 0.0), sub=True)
    if 'cl' not in types:
        put(m, 'strat_q_subcolumns_cl', np.zeros(sh), sub=True)
    return m, ins, sh, types, occ, q, fr, rr, qn, ni, P, Z


def p3_bulk(env):
    """radar reflectivity or lidar backscatter and extinction of P3 ice from the integrated tables"""
    kind, mie_, hybrid = env.param('kind', 'radar'), env.param('mie', False), env.param('hybrid', 0)
    m, ins, sh, types, occ, q, fr, rr, qn, ni, P, Z = setup(env, kind, True)
    N, nt, nz = sh
    mod = env.emc2.simulator.radar_moments.calc_radar_moments if kind == 'radar' else \
        env.emc2.simulator.lidar_moments.calc_lidar_moments
    sfc = env.param('sfc', True)
    dp = env.xp.concatenate([P[:, :-1] - P[:, 1:], P[:, -1:]], axis=1)
    dz = env.xp.concatenate([Z[:, 1:] - Z[:, :-1], Z[:, -1:]], axis=1)
    if 'cl' in types:
        tab = bulk_mulambda(env, ins, 'p3_liq' if kind == 'radar' else 'CESM_liq')
        mu, lam = np.tile(np.linspace(2.5, 6.5, nz), (nt, 1)), np.tile(np.linspace(1.2e5, 2.7e5, nz), (nt, 1))
        m.lambda_field['cl'], m.mu_field['cl'] = 'lam_cl', 'mu_cl'
        put(m, 'mu_cl', mu)
        put(m, 'lam_cl', lam)
        put(m, 're_s_cl', np.full((nt, nz), 12.0))
        qb, qe = interp_mulambda(env, tab, mu, lam)
        Al = env.ite(occ['cl'], 3.0 * q['cl'] * (env.xp.abs(dp) / 9.80665) / (2.0 * 1000.0 * 12e-6) / (2.0 * dz), 0.0)
        lb, le = qb * Al, qe * Al
    m = call(env, m, sh, mod, ins, m, False, OD_from_sfc=sfc, use_rad_logic=True, mie_for_ice=mie_, hyd_types=types)
    if hybrid == 1:
        rho_i = 917.0
        re = look(env, 'ri_eff', fr, rr, qn) * 1e6
        if env.param('fluffy', True):
            re = re * look(env, 'rho_m_weight', fr, rr, qn) / rho_i
        A = 3.0 * q['ci'] * (env.xp.abs(dp) / 9.80665) / (2.0 * rho_i * re * 1e-6) / (2.0 * dz)
    else:
        A = ni * look(env, 'A_tot_norm' if hybrid == 0 else 'A_tot_Mie_norm' if mie_ else 'A_tot_eq_V_norm', fr, rr, qn)
    nm = '_Mie_bulk' if mie_ else '_bulk'
    bs, ex = look(env, 'Q_back' + nm, fr, rr, qn) * A, look(env, 'Q_ext' + nm, fr, rr, qn) * A
    o = occ['ci']
    # the projected area of the top layer is a listed finding
    top = nz if hybrid != 1 and 'cl' not in types else nz - 1
    bs, ex = env.ite(o, bs + 0.0 * ni, 0.0), env.ite(o, ex + 0.0 * ni, 0.0)
    bt, et, some = (bs + lb, ex + le, env.or_(o, occ['cl'])) if 'cl' in types else (bs, ex, o)
    for k in range(top):
        s = (slice(None), slice(None), k)
        for n, b, e, g in (('ci', bs, ex, o), ('tot', bt, et, some)):
            if kind == 'radar':
                z = b[s] * (ins.wavelength ** 4 / (ins.K_w * PI ** 5) * 1e-6)
                out = env.values_of(m.ds['sub_col_Ze_%s_strat' % n])[s]
                env.observe('ze', out)
                env.check('reflectivity', env.ite(g[s], env.close(10.0 ** (out / 10.0), z), env.isnan(out)))
            else:
                out = env.values_of(m.ds['sub_col_beta_p_%s_strat' % n])[s]
                env.observe('beta', out)
                env.check('backscatter', env.close(out, b[s]))
                out = env.values_of(m.ds['sub_col_alpha_p_%s_strat' % n])[s]
                env.check('extinction', env.close(out, e[s]))
    ex = et
    H = env.values_of(m.ds['hyd_ext_strat' if kind == 'radar' else 'sub_col_OD_tot_strat'])
    for k in range(nz):
        if not sfc and top < nz:
            continue
        od = 0.0 * ni[:, k]
        for j in (range(1, k + 1) if sfc else range(k, nz - 1)):
            od = od + ((Z[:, j] - Z[:, j - 1]) * ex[:, :, j - 1] if sfc else (Z[:, j + 1] - Z[:, j]) * ex[:, :, j + 1])
        r = env.xp.exp(-2.0 * od) if kind == 'radar' else od
        env.check('attenuated by the extinction passed', env.close(H[:, :, k], r + 0.0 * ex[:, :, 0]))


def p3_micro(env):
    """radar moments or lidar coefficients of P3 ice from the gamma size distribution"""
    kind, mie_, hybrid = env.param('kind', 'radar'), env.param('mie', False), env.param('hybrid', 0)
    m, ins, sh, types, occ, q, fr, rr, qn, ni, P, Z = setup(env, kind, False)
    N, nt, nz = sh
    s2 = (nt, nz)
    lam, mu, n0 = env.real('lam', s2, 5e2, 1e5), env.real('mu', s2, 0.0, 6.0), env.real('n0', s2, 1.0, 1e9)
    if env.param('mu') is not None:
        mu = np.full(s2, float(env.param('mu')))
    put(m, 'lambda_ice', lam)
    put(m, 'mu_ice', mu)
    put(m, 'N0_norm_ice', n0)
    rho = env.real('rho_a', s2, 0.2, 1.4)
    put(m, 'rho_a', rho)
    m.Vd_rhoa_scaling_ref = {'cl': None, 'ci': 0.8254, 'pl': 1.1}
    cl = None
    if 'cl' in types:
        mie(env, ins, 'cl', sym=False, nd=2)
        mie(env, ins, 'pl', sym=False, nd=2)
    if mie_:
        x = xr.Dataset({'p_diam': (('d',), D), 'beta_p': (('d',), 1e-12 * (1.0 + np.arange(3.0))),
                        'alpha_p': (('d',), 3e-11 * (1.0 + np.arange(3.0)) ** 2)})
        ins.mie_table['ci'] = x
    kw = dict(OD_from_sfc=env.param('sfc', True), use_rad_logic=False, mie_for_ice=mie_, hyd_types=types,
              parallel=env.param('parallel', False), chunk=env.param('chunk'), calc_dispersion=False)
    if kind == 'radar':
        m = call(env, m, sh, env.emc2.simulator.radar_moments.calc_radar_moments, ins, m, False, **kw)
    else:
        m = call(env, m, sh, env.emc2.simulator.lidar_moments.calc_lidar_moments, ins, m, False, **kw)
    suf = '_eq_V' if hybrid else ''
    nb, na, v = [], [], []
    corr = (0.8254 / rho) ** 0.54
    for i, d in enumerate(D):
        nd = ni * n0 * d ** mu * env.xp.exp(-lam * d)
        b, a = (ins.mie_table['ci'][x].values[i] if mie_ else look(env, x + suf, fr, rr, i) for x in ('beta_p', 'alpha_p'))
        nb.append(nd * b)
        na.append(nd * a)
        v.append(-look(env, 'vt', fr, rr, i) * corr)
    o = occ['ci']
    z, e = trapz(env, nb, D), trapz(env, na, D)
    vs, cb, ca, cd, oc = [], [], [], [], False
    if 'cl' in types:
        oc = occ['cl']
        l, N0 = psd_ref(env, q['cl'], 1.0 + 1e4 * q['cl'], 1000.0, 1 / 0.09)
        t = ins.mie_table['cl']
        cd = t['p_diam'].values
        for i, d in enumerate(cd):
            n = N0 * d ** (1 / 0.09) * env.xp.exp(-l * d)
            cb.append(n * t['beta_p'].values[i])
            ca.append(n * t['alpha_p'].values[i])
            vs.append(-3e7 * d ** 2)
    zc, ec = (env.ite(oc, trapz(env, x, cd), 0.0) for x in (cb, ca)) if cb else (0.0, 0.0)
    zt, et, some = env.ite(o, z, 0.0) + zc, env.ite(o, e, 0.0) + ec, env.or_(o, oc)
    part = env.param('part')
    if kind == 'lidar':
        for nm, x, y in (('beta', z, zt), ('alpha', e, et)):
            for n in ('ci', 'tot'):
                out = env.values_of(m.ds['sub_col_%s_p_%s_strat' % (nm, n)])
                env.observe(nm, out)
                env.check({'beta': 'backscatter', 'alpha': 'extinction'}[nm], env.close(
                    out, env.ite(o, x, 0.0) if n == 'ci' else y))
        return
    if part != 'doppler':
        for n, g, x in (('ci', o, z), ('tot', some, zt)):
            out = env.values_of(m.ds['sub_col_Ze_%s_strat' % n])
            env.observe('ze', out)
            env.check('reflectivity', env.ite(g, env.close(10.0 ** (out / 10.0), x * (
                ins.wavelength ** 4 / (ins.K_w * PI ** 5) * 1e-6)), env.isnan(out)))
        H = env.values_of(m.ds['hyd_ext_strat'])
        for k in range(nz):
            od = 0.0 * ni[:, k]
            for j in range(1, k + 1):
                od = od + (Z[:, j] - Z[:, j - 1]) * et[:, :, j - 1]
            env.check('attenuated by the extinction passed', env.close(H[:, :, k], env.xp.exp(-2.0 * od) + 0.0 * et[:, :, 0]))
    if part == 'ze':
        return
    w = trapz(env, [x * y for x, y in zip(nb, v)], D)
    wt = env.ite(o, w, 0.0) + (env.ite(oc, trapz(env, [x * y for x, y in zip(cb, vs)], cd), 0.0) if cb else 0.0)
    for n, g, a, b in (('ci', o, z, w), ('tot', some, zt, wt)):
        out = env.values_of(m.ds['sub_col_Vd_%s_strat' % n])
        env.observe('vd', out)
        env.check('mean velocity weighted by backscatter', env.implies(g, env.close(out * a, b)))
        if not env.param('width', True):
            continue
        out2 = env.values_of(m.ds['sub_col_sigma_d_%s_strat' % n])
        env.observe('sd', out2)
        a1 = env.ite(g, a, 1.0)
        vd = b / a1
        s = trapz(env, [nb[i] * (v[i] - vd) ** 2 for i in range(len(D))], D)
        if n == 'tot':
            s = env.ite(o, s, 0.0)
            if cb:
                s = s + env.ite(oc, trapz(env, [cb[i] * (vs[i] - vd) ** 2 for i in range(len(cd))], cd), 0.0)
        env.check('spectral width', env.implies(g, env.close(out2, env.xp.sqrt(s / a1), atol=1e-9)))


def _gamma(env, x):
    if env.symbolic:
        from engine.patch import _special
        return _special('gamma')(x)
    from scipy.special import gamma
    return gamma(x)


def p3_ingest(env):
    """reading E3SMv3 output: where the ice sits in the tables and the size distribution that follows"""
    nt, nz = env.param('nt', 1), env.param('nz', 1)
    hybrid = env.param('hybrid', 0)
    d, sh = ('time', 'lev', 'ncol'), (nt, nz, 1)
    ds = xr.Dataset()
    v = {}

    def f(n, lo, hi, zero=False, const=False):
        x = np.full(sh, lo) if const else env.real(n, sh, lo, hi)
        if zero:
            x = env.ite(env.bool('zero_' + n, sh), 0.0, x)
        v[n] = x
        ds[n] = da(x + 0.0, d)
    ds['P0'] = xr.DataArray(1e5)
    ds['hyam'] = da(np.linspace(0.1, 0.2, nz), ('lev',))
    ds['hybm'] = da(np.linspace(0.5, 0.7, nz), ('lev',))
    ds['PS'] = da(np.full((nt, 1), 9e4), ('time', 'ncol'))
    f('T', 260.0, 0, const=True)
    f('Z3', 1000.0, 0, const=True)
    f('Q', 1e-3, 0, const=True)
    for t in ('LIQ', 'RAI'):
        f('NUM' + t, 1e6, 0, const=True)
    for t in ('AREL', 'AREI', 'ADRAIN'):
        f(t, 1e-5, 0, const=True)
    f('FREQI', 1e-3, 1.0)
    f('CLDICE', 1e-12, 1e-2)
    q, ra = v['CLDICE'], (1e5 * np.linspace(0.1, 0.2, nz) + 9e4 * np.linspace(0.5, 0.7, nz))[None, :, None] / (287.058 * 260.0)
    sym, wide = env.param('look', ['Fr', 'rho_r', 'qi_norm']), env.param('wide')
    a, b, c = (env.real('in_' + n, sh, *(w if n == wide else r)) if n in sym or n == wide else np.full(sh, 0.3 * r[0] + 0.7 * r[1])
               for n, r, w in (('Fr', (1e-6, 0.99), (1e-6, 3.0)), ('rho_r', (60.0, 890.0), (1.0, 2000.0)),
                               ('qi_norm', (1e-11, 9e-7), (1e-14, 1e-4))))
    if env.param('unrimed'):
        a = env.ite(env.bool('unrimed', sh, split=True), 0.0, a)
    for n, x in (('CLDRIM', a * q), ('BVRIM', a * q / b if not env.param('unrimed') else q / b), ('NUMICE', q / (c * ra))):
        v[n] = x
        ds[n] = da(x + 0.0, d)
    lev = np.arange(nz) * 10.0 + 1.0
    ds['lev'] = xr.DataArray(lev, dims='lev')
    ds['time'] = xr.DataArray(np.arange(nt).astype('datetime64[h]').astype('datetime64[ns]'), dims='time')
    ds['ncol'] = xr.DataArray(np.arange(1), dims='ncol')
    M = env.emc2.core.model
    ins = instrument(env, 'radar')
    tab = table(env, ins)
    old = M.Model.__init__

    def init(self):
        old(self)
        self.lat_dim = 'ncol'
    with _Files(env, ds):
        M.Model.__init__ = init
        try:
            m = env.returns('reads the output', M.E3SMv3, 'file', instrument=ins, use_hybrid_scat=hybrid)
        finally:
            M.Model.__init__ = old
    env.check('one ice class', list(m.hyd_types) == ['cl', 'ci'])
    env.check('scattering of the scheme', m.rad_scheme_family == 'P3' and m.p3_kws['use_hybrid_scat'] == hybrid)
    td = m.time_dim

    def clip(x, g):
        return env.ite(x < g[0], g[0], env.ite(x > g[1], g[1], x))
    for i in range(nt):
        for k in range(nz):
            s = (i, nz - 1 - k, 0)
            q, rim, vol, fr, num = (v[n][s] for n in ('CLDICE', 'CLDRIM', 'BVRIM', 'FREQI', 'NUMICE'))
            p = 1e5 * np.linspace(0.1, 0.2, nz)[nz - 1 - k] + 9e4 * np.linspace(0.5, 0.7, nz)[nz - 1 - k]
            rho = p / (287.058 * 260.0)

            def got(n):
                return _at(m.ds[n], env, **{td: i, 'lev': k})
            ni = num * rho / fr
            env.check('in-cloud number', env.close(got('in_cld_Ni'), ni))
            w = dict(Fr=clip(rim / q, FR), rho_r=clip(env.ite(rim == 0.0, 0.0, rim / vol), RR), qi_norm=clip(q / fr / ni, QN))
            for n in w:
                env.observe(n, got(n))
                env.check('place in the table', env.close(got(n), w[n], rtol=1e-9, atol=1e-18))
            x = tuple(clip(y, g) if n == wide else y for n, y, g in (
                ('Fr', a[s], FR), ('rho_r', w['rho_r'] if env.param('unrimed') else b[s], RR), ('qi_norm', c[s], QN)))
            lam, mu, n0 = got('lambda_ice'), got('mu_ice'), got('N0_norm_ice')
            env.check('slope from the table', env.close(lam, look(env, 'lambda', *x)))
            r = 0.076 * (lam / 100.0) ** 0.8 - 2.0
            env.check('shape from the slope', env.close(mu, env.ite(r < 0.0, 0.0, env.ite(r > 6.0, 6.0, r)), atol=1e-9))
            env.check('normalised intercept', env.close(n0 * _gamma(env, mu + 1.0), lam ** (mu + 1.0)))
            pt = tuple(np.array([e]) if not env.symbolic else env.xp.array([e]) for e in x)
            for n in ('A_tot_norm', 'A_tot_eq_V_norm', 'A_tot_Mie_norm', 'ri_eff', 'rho_m_weight', 'vt_m_weight', 'Z',
                      'Dm_m_weight'):
                env.check('integrated tables', env.close(m.interpobj['bulk'][n](pt)[0], look(env, n, *x)))
            for n in ('vt', 'A', 'V') + (('D_eq_vol_sphere',) if hybrid else ()):
                for j in range(len(D)):
                    env.check('single-particle tables', env.close(
                        m.interpobj['single'][n]((pt[0], pt[1], np.array([D[j]])))[0], look(env, n, x[0], x[1], j)))


HARNESSES = {'p3_bulk': p3_bulk, 'p3_micro': p3_micro, 'p3_ingest': p3_ingest}
T = ('thorough',)
B = '1..2 subcolumns, 1..2 times, 1..3 levels; any rime fraction, rime density and particle mass within a table of 2 x 2 x 2 points'
PROPERTIES = {
    'C44': dict(bounds=B + ', number in [1, 1e6] per m3, mixing ratio in [1e-14, 0.01], any occupancy; liquid with a fixed content',
                configs=[('p3_bulk', dict(look=['Fr', 'qi_norm']), {}), ('p3_bulk', dict(kind='lidar'), {}),
                         ('p3_bulk', dict(look=['Fr'], types=['cl', 'ci'], nz=2), {}),
                         ('p3_bulk', dict(kind='lidar', types=['cl', 'ci'], nz=2), {}),
                         ('p3_bulk', dict(kind='lidar', nz=3, sfc=False, look=['Fr', 'rho_r'], mie=True, sym=['z']), {}),
                         ('p3_bulk', dict(nz=3, look=[], sfc=False, sym=['z']), {}),
                         ('p3_bulk', dict(hybrid=1, nz=2, look=['Fr'], sym=['p']), {}),
                         ('p3_bulk', dict(nz=3, look=[], gone=True), {}), ('p3_bulk', dict(hybrid=1, nz=3, look=[], gone=True), {}),
                         ('p3_bulk', dict(kind='lidar', nz=2, look=[], gone=True, types=['cl', 'ci']), {}),
                         ('p3_bulk', dict(hybrid=1, nz=2, look=['qi_norm'], fluffy=False, mie=True), {}),
                         ('p3_bulk', dict(kind='lidar', hybrid=1, nz=2, look=['Fr', 'rho_r']), {}), ('p3_bulk', dict(kind='lidar', hybrid=1, nz=2, look=['qi_norm']), {}),
                         ('p3_bulk', dict(kind='lidar', hybrid=1, nz=2, fluffy=False), {}),
                         ('p3_bulk', dict(hybrid=2, nz=2, mie=True, look=['rho_r']), {}),
                         ('p3_bulk', dict(kind='lidar', hybrid=2, nz=1, mie=True), {}),
                         ('p3_bulk', dict(hybrid=0, mie=True, nt=2, look=['rho_r']), {}),
                         ('p3_bulk', dict(hybrid=2, N=2, look=['qi_norm']), {}),
                         ('p3_bulk', dict(kind='lidar', hybrid=2, N=2), {}),
                         ('p3_bulk', dict(), dict(tiers=T)),
                         ('p3_bulk', dict(hybrid=1, nz=3, sym=['p', 'z'], look=['Fr', 'rho_r']), dict(tiers=T)),
                         ('p3_bulk', dict(kind='lidar', N=2, nz=2, types=['cl', 'ci']), dict(tiers=T))]),
    'C45': dict(bounds=B.replace('2 x 2 x 2 points', '2 x 2 x 3 points') + ', number in [1, 1e6] per m3, slope in [5e2, 1e5] per m, '
                'shape in [0, 6], intercept in [1, 1e9], air density in [0.2, 1.4], any occupancy; liquid with a fixed content',
                configs=[('p3_micro', dict(part='ze'), {}), ('p3_micro', dict(part='doppler'), {}),
                         ('p3_micro', dict(part='ze', mie=True), {}), ('p3_micro', dict(part='doppler', mie=True, hybrid=1), {}),
                         ('p3_micro', dict(part='ze', hybrid=2, look=['Fr'], nz=2), {}),
                         ('p3_micro', dict(part='doppler', N=2, look=['rho_r']), {}),
                         ('p3_micro', dict(part='ze', types=['cl', 'ci'], look=['Fr']), {}),
                         ('p3_micro', dict(part='doppler', types=['cl', 'ci'], look=['Fr'], width=False), {}),
                         ('p3_micro', dict(part='doppler', types=['cl', 'ci'], look=[]), {}),
                         ('p3_micro', dict(part='doppler', nt=2, parallel=True, look=['Fr'], width=False), {}),
                         ('p3_micro', dict(part='ze', hybrid=1, look=['Fr']), {}), ('p3_micro', dict(part='doppler', nz=2, look=['Fr']), {}),
                         ('p3_micro', dict(part='ze', nz=2, look=[], gone=True), {}), ('p3_micro', dict(kind='lidar', nz=2, look=[], gone=True), {}),
                         ('p3_micro', dict(kind='lidar', hybrid=1), {}), ('p3_micro', dict(kind='lidar', types=['cl', 'ci']), {}),
                         ('p3_micro', dict(kind='lidar', mie=True, nz=2), {}),
                         ('p3_micro', dict(kind='lidar', N=2, nt=2, parallel=True, look=['rho_r']), {}),
                         ('p3_micro', dict(kind='lidar', N=2, nz=2, nt=2, look=[]), dict(tiers=T)),
                         ('p3_micro', dict(nz=2, types=['cl', 'ci'], part='ze'), dict(tiers=T))]),
    'C46': dict(bounds='1..2 times, 1..2 levels, 1 column; ice mixing ratio in [1e-12, 0.01], cloud fraction in [1e-3, 1]; rime '
                'fraction in [1e-6, 3] or none, rime density in [1, 2000], particle mass in [1e-14, 1e-4] kg, the table '
                'spanning [0, 1], [50, 900] and [2^-40, 2^-20]; one of the three outside the table at a time',
                configs=[('p3_ingest', dict(hybrid=1), {}), ('p3_ingest', dict(wide='Fr', look=['rho_r']), {}),
                         ('p3_ingest', dict(wide='rho_r', look=['Fr']), {}),
                         ('p3_ingest', dict(wide='qi_norm', look=['Fr', 'rho_r']), {}),
                         ('p3_ingest', dict(unrimed=True, look=['Fr']), {}), ('p3_ingest', dict(nz=2, nt=2), {})]),
}
