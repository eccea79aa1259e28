"""Radar reflectivity, attenuation and Doppler moments."""
import numpy as np
import xarray as xr
from .common import TYPES, base_model, put, set_N, da, instrument, grid, mie, bulk_re, call

PI = np.pi


def maybe_nan(env, name, shape, lo, hi):
    """a field that may be missing"""
    v = env.real(name, shape, lo, hi)
    return v, env.bool(name + '_missing', shape)


def total(env):
    """stratiform and convective reflectivity combined, attenuated and compared with the noise floor"""
    N, nt, nz = env.param('N', 2), env.param('nt', 1), env.param('nz', 2)
    conv = env.param('conv', True)
    sh, g = (N, nt, nz), (nt, nz)
    m = base_model(env, process_conv=conv)
    set_N(m, N)
    lin = 0.0
    for t in ('strat', 'conv')[:2 if conv else 1]:
        z, miss = maybe_nan(env, 'ze_' + t, sh, -80.0, 60.0)
        put(m, 'sub_col_Ze_tot_' + t, env.ite(miss, np.nan, z), sub=True)
        lin = lin + env.ite(miss, 0.0, 10.0 ** (z / 10.0))
    att = 1.0
    for nm, s in (('hyd_ext_strat', sh), ('hyd_ext_conv', sh), ('atm_ext', g)):
        if not conv and nm == 'hyd_ext_conv':
            continue
        if env.param('nan_ext', False):
            v, miss = maybe_nan(env, nm, s, 1e-6, 1.0)
        else:
            v, miss = env.real(nm, s, 1e-6, 1.0), np.zeros(s, dtype=bool)
        put(m, nm, env.ite(miss, np.nan, v), sub=len(s) == 3)
        att = att * env.ite(miss, 1.0, v)
    zmin = env.real('zmin', g, -60.0, 20.0)
    put(m, 'Ze_min', zmin)
    m = call(env, m, (N, nt, nz), env.emc2.simulator.radar_moments.calc_total_reflectivity, m, detect_mask=True)
    T = env.values_of(m.ds['sub_col_Ze_tot'])
    A = env.values_of(m.ds['sub_col_Ze_att_tot'])
    D = env.values_of(m.ds['detect_mask'].transpose('subcolumn', m.time_dim, m.height_dim))
    env.observe('T', T)
    env.observe('A', A)
    nothing = lin <= 0
    env.check('reflectivities add in linear units', env.or_(nothing, env.close(10.0 ** (T / 10.0), lin)))
    env.check('no hydrometeors, no reflectivity', env.implies(nothing, env.and_(env.isnan(T), env.isnan(A))))
    env.check('attenuated by every medium', env.or_(nothing, env.close(10.0 ** (A / 10.0), lin * att)))
    env.check('attenuation never adds signal', env.or_(nothing, env.le(A, T, atol=1e-9)))
    d = env.b(D)
    env.check('undetected below the noise floor', env.implies(env.and_(env.not_(nothing), A < zmin - 1e-9), d))
    env.check('detected above the noise floor', env.implies(env.and_(env.not_(nothing), A > zmin + 1e-9), env.not_(d)))


def heights(env, nt, nz, lo=0.0):
    """strictly increasing heights"""
    d = env.real('dz', (nt, nz), 1.0, 5000.0)
    return env.xp.cumsum(d, axis=1) + lo


def accumulate(env):
    """two-way transmittance through hydrometeors and gases"""
    N, nt, nz = env.param('N', 2), env.param('nt', 1), env.param('nz', 4)
    sfc, emp, conv = env.param('sfc', True), env.param('emp', False), env.param('conv', False)
    m = base_model(env)
    set_N(m, N)
    pre = 'conv' if conv else 'strat'
    z = heights(env, nt, nz)
    put(m, pre + '_q_subcolumns_cl', np.zeros((N, nt, nz)), sub=True)
    put(m, 'sub_col_Ze_tot_' + pre, np.zeros((N, nt, nz)), sub=True)
    put(m, 'T', np.full((nt, nz), 280.0), units='kelvin')
    he = env.real('hyd', (N, nt, nz), 0.0, 1.0)
    ae = env.real('gas', (nt, nz), 0.0, 10.0)
    rm = env.emc2.simulator.radar_moments
    m = call(env, m, (N, nt, nz), rm.accumulate_attenuation, m, conv, z, he, ae, OD_from_sfc=sfc, use_empiric_calc=emp)
    H, A = env.values_of(m.ds['hyd_ext_' + pre]), env.values_of(m.ds['atm_ext'])
    env.check('shapes', tuple(H.shape) == (N, nt, nz) and tuple(A.shape) == (nt, nz))
    env.observe('H', H)
    env.observe('A', A)
    for t in range(nt):
        for k in range(nz):
            ks = range(1, k + 1) if sfc else range(k, nz - 1)
            ag = 0.0
            hg = [0.0] * N
            for j in ks:
                d = z[t, j] - z[t, j - 1] if sfc else z[t, j + 1] - z[t, j]
                src = j - 1 if sfc else j + 1
                ag = ag + d / 1e3 * ae[t, src]
                for i in range(N):
                    hg[i] = hg[i] + d * he[i, t, src] * (1e-3 if emp else 1.0)
            env.check('two-way gaseous attenuation of the layers passed', env.close(A[t, k], 10.0 ** (-0.2 * ag)))
            for i in range(N):
                ref = 10.0 ** (-0.2 * hg[i]) if emp else env.xp.exp(-2.0 * hg[i])
                env.check('two-way hydrometeor attenuation of the layers passed', env.close(H[i, t, k], ref))
                env.check('a transmittance', env.and_(H[i, t, k] <= 1.0 + 1e-12, H[i, t, k] >= 0.0))


def empirical(env):
    """reflectivity from literature relations, through calc_radar_moments"""
    N, nt, nz = env.param('N', 1), env.param('nt', 1), env.param('nz', 2)
    conv, sfc = env.param('conv', False), env.param('sfc', True)
    types = env.param('types', ['cl', 'ci', 'pl', 'pi'])
    ghz = env.param('ghz', 35.0)
    if isinstance(ghz, list):
        ghz = env.real('ghz', (), *ghz)
    m = base_model(env)
    pre = 'conv' if conv else 'strat'
    set_N(m, N)
    ins = instrument(env, 'radar', ghz=ghz)
    P, TK, Z, qv = grid(env, m, nt, nz, symbolic=env.param('sym', ['z']))
    q = {}
    for t in ('cl', 'ci', 'pl', 'pi'):
        if t in types:
            occ = env.bool('occ_' + t, (N, nt, nz), split=True)
            qq = env.real('q_' + t, (N, nt, nz), 1e-14, 0.01)
            q[t] = env.ite(occ, qq, 0.0)
        else:
            q[t] = np.full((N, nt, nz), 0.003)
        put(m, pre + '_q_subcolumns_' + t, q[t], sub=True)
    rm = env.emc2.simulator.radar_moments
    m = call(env, m, (N, nt, nz), rm.calc_radar_moments, ins, m, conv, OD_from_sfc=sfc, use_empiric_calc=True,
                    hyd_types=types)
    tc = TK - 273.15
    rho = P / (287.058 * TK)
    f = ghz * 1e9
    tot = 0.0
    liq = 0.0
    for t in types:
        W = q[t] * rho * 1e3           # g m-3
        if t == 'cl':
            ref = 0.031 * W ** 1.56
            liq = liq + W
        elif t == 'pl':
            ref = (W * 1e3 / 3.4) ** 1.75
            liq = liq + W
        else:
            lw = env.xp.log10(W)
            db = env.ite(env.and_(2e9 <= f, f < 4e9), (lw + 0.0197 * tc + 1.7) / 0.060, env.ite(
                env.and_(75e9 <= f, f < 110e9), (lw + 0.00706 * tc + 0.992) / (0.000580 * tc + 0.0923),
                (lw + 0.0186 * tc + 1.63) / (0.000242 * tc + 0.0699)))
            ref = env.ite(W > 0, 10.0 ** (db / 10.0), 0.0)
        out = env.values_of(m.ds['sub_col_Ze_%s_%s' % (t, pre)])
        env.observe('ze_' + t, out)
        env.check('class reflectivity', env.ite(W > 0, env.close(out, 10.0 * env.xp.log10(ref)), env.isnan(out)))
        tot = tot + ref
    T = env.values_of(m.ds['sub_col_Ze_tot_' + pre])
    env.check('total is the sum over the classes',
              env.ite(tot > 0, env.close(T, 10.0 * env.xp.log10(tot), atol=1e-6), env.isnan(T)))
    kap = 6 * PI / (ins.wavelength * 1000.0) * ((ins.eps_liq - 1) / (ins.eps_liq + 2)).imag * 4.34e6
    H = env.values_of(m.ds['hyd_ext_' + pre])
    for i in range(N):
        for it in range(nt):
            for k in range(nz):
                s = 0.0
                for j in (range(1, k + 1) if sfc else range(k, nz - 1)):
                    d = (Z[it, j] - Z[it, j - 1]) if sfc else (Z[it, j + 1] - Z[it, j])
                    s = s + d / 1e3 * (liq + 0.0 * tot)[i, it, j - 1 if sfc else j + 1]
                env.check('attenuated by the liquid water passed', env.close(
                    H[i, it, k], 10.0 ** (-0.2 * kap * s)))
    A = env.values_of(m.ds['sub_col_Ze_att_tot_' + pre])
    env.check('attenuation never adds signal', env.or_(tot <= 0, env.le(A, T, atol=1e-9)))


def bulk(env):
    """reflectivity and extinction from effective radii and bulk tables"""
    N, nt, nz = env.param('N', 1), env.param('nt', 1), env.param('nz', 2)
    conv, sfc, fluffy = env.param('conv', False), env.param('sfc', True), env.param('fluffy', True)
    types, mie_ = env.param('types', ['cl', 'ci', 'pl', 'pi']), env.param('mie', False)
    kind = env.param('kind', 'radar')
    fam = env.param('rad', 'ModelE')
    m = base_model(env, types=TYPES + [t for t in types if t not in TYPES], rad=fam)
    fl = {t: 0.5 for t in types if t[-1] != 'l'}
    if not fluffy:
        m.fluffy = None
    elif fluffy == 'any':
        fl = {t: env.real('fluffy_' + t, (), 0.0, 1.0) for t in types if t[-1] != 'l'}
    elif isinstance(fluffy, dict):
        fl = fluffy
    if fluffy not in (True, False):
        u = env.emc2.core.model.ureg
        m.fluffy = {t: fl[t] * u.dimensionless for t in fl}
    pre = 'conv' if conv else 'strat'
    set_N(m, N)
    rho_ice = {'ci': 500.0, 'pi': 250.0, 'gr': 400.0, 'ha': 900.0, 'sn': 100.0}
    if env.param('var'):
        # particle density given per cell (as with the NSSL scheme)
        for t in env.param('var'):
            rho_ice[t] = np.linspace(300.0, 640.0, nt * nz).reshape(nt, nz)
            m.Rho_hyd[t] = 'variable'
            m.variable_density = dict(m.variable_density, **{t: 'rho_' + t})
            put(m, 'rho_' + t, rho_ice[t])
    ins = instrument(env, kind, ghz=35.0)
    P, TK, Z, qv = grid(env, m, nt, nz, symbolic=env.param('sym', ['z'] if kind == 'radar' else ['p', 'T', 'z']))
    tabs = {}
    names = {'ModelE': ('E3_liq', 'E3_ice', 'mie_ice_E3_PSD'), 'CESM': ('CESM_liq', 'CESM_ice', 'mie_ice_CESM_PSD')}
    for n in names[fam]:
        if n == 'CESM_liq':
            tabs[n] = bulk_mulambda(env, ins, n)
        else:
            tabs[n] = bulk_re(env, ins, n)
    if fam == 'CESM':
        m.lambda_field, m.mu_field = {'cl': 'lam_cl', 'pl': 'lam_pl', 'ci': None, 'pi': None}, \
            {'cl': 'mu_cl', 'pl': 'mu_pl', 'ci': None, 'pi': None}
    q, re, occ, ml = {}, {}, {}, {}
    for t in types:
        occ[t] = env.bool('occ_' + t, (N, nt, nz), split=True)
        if not sfc:
            # the extinction of the top level is a listed finding
            occ[t] = env.xp.concatenate([occ[t][:, :, :-1], np.zeros((N, nt, 1), dtype=bool)], axis=2)
        qq = env.real('q_' + t, (N, nt, nz), 1e-14, 0.01)
        q[t] = env.ite(occ[t], qq, 0.0)
        # inside the first cell of the table, the interior, and beyond its ends
        rng = env.param('re', [5.0, 300.0])
        if isinstance(rng[0], list):
            re[t] = env.xp.concatenate([env.real('re_%s_%d' % (t, k), (nt, 1), *rng[k]) for k in range(nz)], axis=1)
        else:
            re[t] = env.real('re_' + t, (nt, nz), *rng)
        put(m, pre + '_q_subcolumns_' + t, q[t], sub=True)
        put(m, pre + '_frac_subcolumns_' + t, env.ite(occ[t], 1.0, 0.0), sub=True)
        x = re[t]
        if env.param('re_nan'):
            # models give no radius where the class is absent
            here = occ[t][0]
            for i in range(1, N):
                here = env.or_(here, occ[t][i])
            x = env.ite(here, x, np.nan)
        put(m, ('re_c_' if conv else 're_s_') + t, x)
        if fam == 'CESM' and t in ('cl', 'pl'):
            mu = np.tile(np.linspace(2.5, 6.5, nz), (nt, 1))
            lam = np.tile(np.linspace(1.2e5, 2.7e5, nz), (nt, 1))
            put(m, 'mu_' + t, mu)
            put(m, 'lam_' + t, lam)
            ml[t] = (mu, lam)
    for t in ('cl', 'ci'):
        if t not in types:
            put(m, pre + '_q_subcolumns_' + t, np.zeros((N, nt, nz)), sub=True)
    if kind == 'radar':
        fn = env.emc2.simulator.radar_moments.calc_radar_moments
    else:
        fn = env.emc2.simulator.lidar_moments.calc_lidar_moments
    m = call(env, m, (N, nt, nz), fn, ins, m, conv, OD_from_sfc=sfc, use_rad_logic=True, mie_for_ice=mie_,
                    hyd_types=types)
    top = nz if env.param('top') else nz - 1
    rho_i = 917.0
    tb, te = 0.0, 0.0
    for t in types:
        L = {'l': names[fam][0]}.get(t[-1], names[fam][2] if mie_ else names[fam][1])
        if t[-1] == 'l':
            rb, r = 1000.0, re[t]
        else:
            rb = rho_i
            rh = rho_ice[t]
            r = re[t] * (fl[t] * rh / rb + (1.0 - fl[t]) * (rh / rb) ** (1 / 3)) if fluffy else re[t]
        if t in ml:
            qb, qe = interp_mulambda(env, tabs[L], *ml[t])
        else:
            x, yb, ye = tabs[L]
            qb, qe = pw(env, r, x, yb), pw(env, r, x, ye)
        dp = env.xp.concatenate([P[:, :-1] - P[:, 1:], P[:, -1:]], axis=1)
        dz = env.xp.concatenate([Z[:, 1:] - Z[:, :-1], Z[:, -1:]], axis=1)
        # projected area per volume of geometric scatterers
        A = 3.0 * q[t] * (env.xp.abs(dp) / 9.80665) / (2.0 * rb * r * 1e-6) / (2.0 * dz)
        bs, ex = qb * A, qe * A
        tb, te = tb + bs, te + ex
        if kind == 'radar':
            ref = bs * (ins.wavelength ** 4 / (ins.K_w * PI ** 5) * 1e-6)
            out = env.values_of(m.ds['sub_col_Ze_%s_%s' % (t, pre)])
            env.observe('ze_' + t, out)
            o = out[:, :, :top]
            env.check('class reflectivity', env.ite(occ[t][:, :, :top], env.close(
                10.0 ** (o / 10.0), ref[:, :, :top]), env.isnan(o)))
        else:
            for nm, rf in (('beta', bs), ('alpha', ex)):
                out = env.values_of(m.ds['sub_col_%s_p_%s_%s' % (nm, t, pre)])
                env.observe(nm + t, out)
                env.check('class ' + {'beta': 'backscatter', 'alpha': 'extinction'}[nm],
                          env.close(out[:, :, :top], rf[:, :, :top]))
    if kind == 'radar':
        T = env.values_of(m.ds['sub_col_Ze_tot_' + pre])
        A = env.values_of(m.ds['sub_col_Ze_att_tot_' + pre])
        sc = ins.wavelength ** 4 / (ins.K_w * PI ** 5) * 1e-6
        env.check('total is the sum over the classes', env.ite(tb[:, :, :top] > 0, env.close(
            10.0 ** (T[:, :, :top] / 10.0), tb[:, :, :top] * sc), env.isnan(T[:, :, :top])))
        if top == nz - 1:
            H = env.values_of(m.ds['hyd_ext_' + pre])
            for k in range(nz):
                s = 0.0
                for j in (range(1, k + 1) if sfc else range(k, nz - 1)):
                    s = s + ((Z[:, j] - Z[:, j - 1]) * te[:, :, j - 1] if sfc else
                             (Z[:, j + 1] - Z[:, j]) * te[:, :, j + 1])
                env.check('attenuated by the extinction passed', env.close(H[:, :, k], env.xp.exp(-2.0 * s)))
    else:
        for nm, rf in (('beta', tb), ('alpha', te)):
            out = env.values_of(m.ds['sub_col_%s_p_tot_%s' % (nm, pre)])
            env.check('total is the sum over the classes', env.close(out[:, :, :top], rf[:, :, :top]))
    if env.param('top'):
        # the sign at the top level
        for t in types:
            if kind == 'lidar':
                out = env.values_of(m.ds['sub_col_alpha_p_%s_%s' % (t, pre)])
                env.check('extinction is not negative', out >= 0)


def pw(env, x, xs, ys):
    """piecewise linear interpolation, constant beyond the ends"""
    r = ys[-1]
    for i in range(len(xs) - 2, -1, -1):
        r = env.ite(x < xs[i + 1], ys[i] + (x - xs[i]) * ((ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])), r)
    return env.ite(x < xs[0], ys[0], r)


def bulk_mulambda(env, ins, name):
    mu = np.array([2.0, 5.0, 8.0])
    lam = np.array([[1e5, 2e5, 3e5], [1.5e5, 2.5e5, 3.5e5]])
    qb = 1.0 + np.arange(6).reshape(2, 3) * 0.3 + np.array([[0.0, 0.05, 0.3], [0.2, 0.15, 0.1]])
    qe = 2.0 + np.arange(6).reshape(2, 3) * 0.1 + np.array([[0.1, 0.0, 0.2], [0.3, 0.05, 0.0]])
    ins.bulk_table[name] = xr.Dataset({
        'mu': (('mu',), mu), 'lambdas': (('lambdas',), np.arange(2.0)),
        'lambda': (('lambdas', 'mu'), lam), 'Q_back': (('lambdas', 'mu'), qb), 'Q_ext': (('lambdas', 'mu'), qe)})
    return mu, lam, qb, qe


def interp_mulambda(env, tab, mu, lam):
    from scipy.interpolate import LinearNDInterpolator
    m, L, qb, qe = tab
    pts = np.stack([np.tile(m, 2), L.flatten()], axis=1)
    out = []
    for v in (qb, qe):
        f = LinearNDInterpolator(pts, v.flatten())
        out.append(f(mu.flatten(), lam.flatten()).reshape(mu.shape))
    return out


HARNESSES = {'total_ze': total, 'radar_accumulate': accumulate, 'radar_empirical': empirical, 'bulk': bulk}

T = ('thorough',)
PROPERTIES = {
    'C09': dict(bounds='1..2 subcolumns, 1..2 times, 2..3 levels; reflectivity in [-80, 60] dBZ or missing, transmittances in '
                '[1e-6, 1] or missing, noise floor in [-60, 20] dBZ',
                configs=[('total_ze', {}, {}), ('total_ze', dict(N=1, nz=3, conv=False), {}),
                         ('total_ze', dict(N=2, nt=2, nan_ext=True), {}),
                         ('total_ze', dict(N=2, nt=2, nan_ext=True, conv=False), {}),
                         ('total_ze', dict(N=4, nt=2, nz=3, nan_ext=True), dict(tiers=T))]),
    'C10': dict(bounds='1..2 subcolumns, 1..2 times, 3..5 levels of any thickness in [1, 5000] m; any non-negative extinction; '
                'from the surface and from the top',
                configs=[('radar_accumulate', dict(sfc=s, emp=e, conv=c), {}) for s in (True, False)
                         for e in (True, False) for c in (True, False)] +
                [('radar_accumulate', dict(sfc=s, nt=2, nz=5, N=1), {}) for s in (True, False)] +
                [('radar_accumulate', dict(sfc=s, nt=2, nz=8, N=2, emp=e), dict(tiers=T))
                 for s in (True, False) for e in (True, False)]),
    'C11': dict(bounds='1..2 subcolumns, 1..2 times, 1..3 levels, four classes; every occupancy pattern, mixing ratio in [1e-14, 0.01], '
                'temperature in [230, 300] K and pressure, or heights, arbitrary; 3, 35, 94 GHz and any in [1, 150] GHz',
                configs=[('radar_empirical', dict(N=1, nz=1, sym=['p', 'T'], ghz=g), {}) for g in (3.0, 35.0, 94.0)] +
                [('radar_empirical', dict(N=1, nz=1, sym=['p', 'T'], conv=True), {}),
                 ('radar_empirical', dict(N=1, nz=1, types=['ci', 'pi'], sym=['T'], ghz=[1.0, 150.0]), {}),
                 ('radar_empirical', dict(N=1, nt=2, nz=2, types=['ci']), {}),
                 ('radar_empirical', dict(N=1, nt=2, nz=1, types=['pl', 'cl'], sym=['p', 'T']), {}),
                 ('radar_empirical', dict(N=2, nt=1, nz=2, types=['pi'], sfc=False), {}),
                 ('radar_empirical', dict(N=1, nz=3, types=['cl', 'pl']), {}),
                 ('radar_empirical', dict(N=1, nz=3, types=['pl', 'cl'], sfc=False), {}),
                 ('radar_empirical', dict(N=2, nz=2, types=['pl', 'ci', 'cl'], ghz=94.0), dict(tiers=T)),
                 ('radar_empirical', dict(N=1, nz=2, types=['ci', 'pl'], sfc=False, conv=True), {}),
                 ('radar_empirical', dict(N=1, nz=2), dict(tiers=T))]),
    'C12': dict(bounds='1..2 subcolumns, 1..2 times, 2..3 levels, one or two classes; density of the class or per cell, several fluffiness values; every occupancy pattern, mixing ratio in [1e-14, 0.01], '
                'any effective radius within the stated segment(s) of the table (below, inside and above its ends), '
                'arbitrary table efficiencies; heights arbitrary',
                configs=[('bulk', dict(types=['pl'], re=[[70, 95], [4, 9]]), {}),
                         ('bulk', dict(types=['ci'], re=[30, 40], re_nan=True), {}),
                         ('bulk', dict(types=['cl', 'pi'], rad='CESM', re=[30, 40], re_nan=True), {}),
                         ('bulk', dict(types=['pl'], re=[30, 40], re_nan=True, sfc=False), {}),
                         ('bulk', dict(types=['ci', 'pl'], re=[12, 24], fluffy=False), {}),
                         ('bulk', dict(types=['pl'], re=[12, 24], nz=3), {}),
                         ('bulk', dict(types=['cl', 'pi'], re=[30, 40], conv=True), {}),
                         ('bulk', dict(types=['ci'], re=[30, 40], mie=True, sfc=False, nz=3), {}),
                         ('bulk', dict(types=['pl', 'pi'], rad='CESM', re=[30, 40]), {}),
                         ('bulk', dict(types=['pi', 'cl'], rad='CESM', re=[30, 40], mie=True), {}),
                         ('bulk', dict(types=['pl'], rad='CESM', re=[30, 40], nz=3, sfc=False), {}),
                         ('bulk', dict(types=['pl', 'pi'], rad='CESM', re=[30, 40], nz=3, sfc=False), dict(tiers=T)),
                         ('bulk', dict(types=['cl', 'ci'], re=[[4, 8], [30, 70]], conv=True), dict(tiers=T)),
                         ('bulk', dict(types=['pl'], re=[30, 40], nt=2), {}),
                         ('bulk', dict(types=['pi'], re=[52, 90], nt=2, var=['pi'], conv=True), {}),
                         ('bulk', dict(types=['gr'], re=[52, 90], N=2, var=['gr'], sfc=False), {}),
                         ('bulk', dict(types=['ci', 'pi'], re=[14, 24], fluffy={'ci': 0.0, 'pi': 1.0}), {}),
                         ('bulk', dict(types=['ci'], re=[50, 90], fluffy={'ci': 0.85}, N=2, sfc=False), {}),
                         ('bulk', dict(types=['ci'], re=[30, 40], fluffy='any'), dict(tiers=T)),
                         ('bulk', dict(types=['cl'], re=[30, 40], top=True, conv=True), {})]),
    'C13': dict(bounds='1..2 subcolumns, 1..2 times, 2..3 levels, one to four classes; density of the class or per cell, any fluffiness; every occupancy pattern, mixing ratio in '
                '[1e-14, 0.01], effective radius in [5, 300] (beyond both ends of the table), arbitrary table efficiencies, '
                'pressures, temperatures and heights',
                configs=[('bulk', dict(kind='lidar', types=['cl', 'ci', 'pl', 'pi'], re=[30, 40]), {}),
                         ('bulk', dict(kind='lidar', types=['cl', 'ci']), {}),
                         ('bulk', dict(kind='lidar', types=['pl', 'ci'], re=[30, 40], re_nan=True), {}),
                         ('bulk', dict(kind='lidar', types=['pl', 'pi']), {}),
                         ('bulk', dict(kind='lidar', types=['pl', 'ci'], fluffy=False, N=2), {}),
                         ('bulk', dict(kind='lidar', types=['cl', 'pi'], mie=True, conv=True), {}),
                         ('bulk', dict(kind='lidar', types=['pl', 'pi'], rad='CESM', sfc=False), {}),
                         ('bulk', dict(kind='lidar', types=['cl', 'ci'], rad='CESM', mie=True), {}),
                         ('bulk', dict(kind='lidar', types=['ci', 'pl'], nz=3, re=[20, 70]), {}),
                         ('bulk', dict(kind='lidar', types=['cl', 'ci', 'pl'], nz=3), dict(tiers=T)),
                         ('bulk', dict(kind='lidar', types=['pl'], re=[30, 40], nt=2, N=2, sfc=False), {}),
                         ('bulk', dict(kind='lidar', types=['ci'], re=[30, 40], nt=2, conv=True), {}),
                         ('bulk', dict(kind='lidar', types=['pi', 'ha'], re=[30, 40], var=['ha']), {}),
                         ('bulk', dict(kind='lidar', types=['pi'], re=[30, 40], nt=2, var=['pi']), {}),
                         ('bulk', dict(kind='lidar', types=['ci', 'pi'], re=[30, 40], fluffy='any'), {}),
                         ('bulk', dict(kind='lidar', types=['cl'], top=True, conv=True), {})]),
}
