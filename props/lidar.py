"""Lidar optical depth, totals, depolarization, molecular scattering and the empirical approach; gases."""
import numpy as np
import xarray as xr
from .common import base_model, put, set_N, da, instrument, grid, call

PI = np.pi


def optical_depth(env):
    """optical depth of one class accumulated along the beam"""
    N, nt, nz = env.param('N', 2), env.param('nt', 1), env.param('nz', 4)
    sfc, conv, t = env.param('sfc', True), env.param('conv', False), env.param('type', 'ci')
    m = base_model(env)
    set_N(m, N)
    pre = 'conv' if conv else 'strat'
    z = env.xp.cumsum(env.real('dz', (nt, nz), 1.0, 5000.0), axis=1)
    al = env.real('alpha', (N, nt, nz), 0.0, 1.0)
    put(m, '%s_q_subcolumns_%s' % (pre, t), np.zeros((N, nt, nz)), sub=True)
    put(m, 'sub_col_alpha_p_%s_%s' % (t, pre), al, sub=True)
    m = call(env, m, (N, nt, nz), env.emc2.simulator.lidar_moments.accumulate_OD, m, conv, z, t, OD_from_sfc=sfc)
    OD = env.values_of(m.ds['sub_col_OD_%s_%s' % (t, pre)])
    env.check('shape', tuple(OD.shape) == (N, nt, nz))
    env.observe('OD', OD)
    for it in range(nt):
        for k in range(nz):
            s = 0.0
            for j in (range(1, k + 1) if sfc else range(k, nz - 1)):
                s = s + ((z[it, j] - z[it, j - 1]) * al[:, it, j - 1] if sfc else
                         (z[it, j + 1] - z[it, j]) * al[:, it, j + 1])
            env.check('optical depth of the layers passed', env.close(OD[:, it, k], s))
    d = OD[:, :, 1:] - OD[:, :, :-1]
    env.check('does not decrease along the beam', env.le(0.0, d if sfc else -d, atol=1e-9))


def total(env):
    """stratiform plus convective lidar variables and attenuated backscatter"""
    N, nt, nz = env.param('N', 2), env.param('nt', 1), env.param('nz', 2)
    conv, eta = env.param('conv', True), env.param('eta', 1.0)
    m = base_model(env, process_conv=conv)
    set_N(m, N)
    sh = (N, nt, nz)
    v = {}
    rng = dict(beta_p=(0.0, 0.1), alpha_p=(0.0, 1.0), OD=(0.0, 50.0))
    for nm in rng:
        tot = 0.0
        for p in ('strat', 'conv')[:2 if conv else 1]:
            x = env.real('%s_%s' % (nm, p), sh, *rng[nm])
            miss = env.bool('%s_%s_missing' % (nm, p), sh) if p == env.param('miss', 'strat') else \
                np.zeros(sh, dtype=bool)
            put(m, 'sub_col_%s_tot_%s' % (nm, p), env.ite(miss, np.nan, x), sub=True)
            tot = tot + env.ite(miss, 0.0, x)
        if not conv:
            put(m, 'sub_col_%s_tot_conv' % nm, np.full(sh, 0.5), sub=True)
        v[nm] = tot
    bm, tau = env.real('beta_m', (nt, nz), 1e-9, 1e-3), env.real('tau', (nt, nz), 1e-6, 1.0)
    put(m, 'sigma_180_vol', bm)
    put(m, 'tau', tau)
    m = call(env, m, (N, nt, nz), env.emc2.simulator.lidar_moments.calc_total_alpha_beta, m,
                    OD_from_sfc=env.param('sfc', True), **({} if eta == 1.0 else dict(eta=eta)))
    for nm in rng:
        x = env.values_of(m.ds['sub_col_%s_tot' % nm])
        env.observe(nm, x)
        env.check('%s is the sum of stratiform and convective' % nm, env.close(x, v[nm]))
    B = env.values_of(m.ds['sub_col_beta_att_tot'])
    env.observe('B', B)
    env.check('attenuated backscatter', env.close(B, (bm + v['beta_p']) * tau * env.xp.exp(-2.0 * eta * v['OD'])))


def ldr(env):
    """linear depolarization ratio and extinction mask"""
    N, nt, nz = env.param('N', 1), env.param('nt', 1), env.param('nz', 2)
    conv, sfc = env.param('conv', True), env.param('sfc', True)
    types = env.param('types', ['cl', 'ci', 'pl', 'pi'])
    sub = env.param('sub', types)
    m = base_model(env, types=types, process_conv=conv)
    set_N(m, N)
    sh = (N, nt, nz)
    given = env.param('given', True)
    L = {t: env.real('ldr_' + t, (), 0.0, 0.6) for t in types} if given else \
        {t: m.LDR_per_hyd[t].magnitude for t in types}
    b = {}
    for p in ('strat', 'conv')[:2 if conv else 1]:
        for t in types:
            x = env.real('b_%s_%s' % (t, p), sh, 0.0, 1.0)
            miss = env.bool('miss_%s_%s' % (t, p), sh) if env.param('miss', False) else np.zeros(sh, dtype=bool)
            put(m, 'sub_col_beta_p_%s_%s' % (t, p), env.ite(miss, np.nan, x), sub=True)
            b[t, p] = env.ite(miss, 0.0, x)
    od = env.real('od', sh, 0.0, 20.0)
    put(m, 'sub_col_OD_tot', od, sub=True)
    ext = env.param('ext', 4.0)
    m = call(env, m, (N, nt, nz), env.emc2.simulator.lidar_moments.calc_LDR_and_ext, m, ext_OD=ext, OD_from_sfc=sfc,
                    LDR_per_hyd=L if given else None, hyd_types=None if sub == types else list(sub))
    nt_, dt_ = 0.0, 0.0
    for p in ('strat', 'conv')[:2 if conv else 1]:
        num, den = 0.0, 0.0
        for t in sub:
            num, den = num + b[t, p] * L[t], den + b[t, p]
        nt_, dt_ = nt_ + num, dt_ + den
        r = env.values_of(m.ds['sub_col_LDR_' + p])
        env.observe('ldr_' + p, r)
        env.check('backscatter-weighted mean of the classes', env.ite(den > 0, env.close(r * den, num, atol=1e-12),
                                                                      env.isnan(r)))
    r = env.values_of(m.ds['sub_col_LDR_tot'])
    env.observe('ldr_tot', r)
    env.check('total weighted mean', env.ite(dt_ > 0, env.close(r * dt_, nt_, atol=1e-12), env.isnan(r)))
    lo = hi = L[sub[0]]
    for t in sub[1:]:
        lo, hi = env.xp.minimum(lo, L[t]), env.xp.maximum(hi, L[t])
    if env.param('bounds', True):
        env.check('between the smallest and largest ratio', env.or_(env.not_(dt_ > 0), env.and_(
            env.le(r * dt_, hi * dt_, atol=1e-9), env.le(lo * dt_, r * dt_, atol=1e-9))))
    M = env.values_of(m.ds['ext_mask'])
    env.observe('M', M)
    env.check('mask shape', tuple(M.shape) == sh)
    for k in range(nz):
        x = od[:, :, k] > ext
        env.check('2 where the signal is extinct', env.xp.equal(M[:, :, k] == 2, x))
        kn = k + 1 if sfc else k - 1
        nxt = od[:, :, kn] > ext if 0 <= kn < nz else np.zeros((N, nt), dtype=bool)
        env.check('1 in the layer where it becomes extinct', env.xp.equal(M[:, :, k] == 1, env.and_(nxt, env.not_(x))))
        env.check('otherwise 0', env.implies(env.and_(env.not_(nxt), env.not_(x)), M[:, :, k] == 0))


def molecular(env):
    """molecular scattering and two-way transmittance"""
    nt, nz = env.param('nt', 1), env.param('nz', 3)
    sfc, lam = env.param('sfc', True), env.param('um', 0.532)
    m = base_model(env)
    P, TK, Z, qv = grid(env, m, nt, nz, t_units=env.param('tu', 'kelvin'), p_units=env.param('pu', 'hPa'))
    m = call(env, m, (0, nt, nz), env.emc2.simulator.attenuation.calc_theory_beta_m, m, lam, OD_from_sfc=sfc)
    v = {k: env.values_of(m.ds[k]) for k in ('tau', 'u_atm', 'beta', 'sigma_180_vol', 'sigma_180', 'sigma', 'N_s', 'n_s')}
    for k in sorted(v):
        env.observe(k, v[k])
    tc = TK - 273.15
    N = P / (8.31446 * TK) * 6.022e23
    env.check('number density of an ideal gas', env.close(v['N_s'], N, rtol=1e-3))
    nu = 1.0 / lam
    ref = (6432.8 + 2949810 / (146 - nu ** 2) + 25540 / (41 - nu ** 2)) * 1e-8
    n1 = ref * (1 + 0.00366 * 15) / (1 + 0.00366 * tc) * (P / 101325.0)
    env.check('refractivity proportional to density', env.close(v['n_s'] - 1.0, n1, rtol=1e-6))
    king = (6 + 3 * 0.035) / (6 - 7 * 0.035)
    Nc = v['N_s'] * 1e-6
    sig = 8 * PI ** 3 / 3 * (v['n_s'] ** 2 - 1) ** 2 / (Nc ** 2 * (lam * 1e-4) ** 4) * king * 1e-4
    env.check('Rayleigh cross section', env.close(v['sigma'], sig))
    env.check('extinction is cross section times number', env.close(v['beta'], v['sigma'] * v['N_s']))
    env.check('backscatter is cross section times number', env.close(v['sigma_180_vol'], v['sigma_180'] * v['N_s']))
    rat = 8 * PI / 3 * king / (2 * (2 + 0.035) / (6 - 7 * 0.035) * 0.7629 * 1.932)
    env.check('molecular lidar ratio', env.close(v['beta'], rat * v['sigma_180_vol']))
    for t in range(nt):
        for k in range(nz):
            s = 0.0
            for j in (range(1, k + 1) if sfc else range(k + 1, nz)):
                s = s + (Z[t, j] - Z[t, j - 1]) / 2.0 * (v['beta'][t, j] + v['beta'][t, j - 1])
            env.check('optical depth along the beam', env.close(v['u_atm'][t, k], s))
            env.check('two-way transmittance', env.close(v['tau'][t, k], env.xp.exp(-2.0 * v['u_atm'][t, k])))


def empirical(env):
    """lidar variables from literature relations, through calc_lidar_moments"""
    N, nt, nz = env.param('N', 1), env.param('nt', 1), env.param('nz', 2)
    conv, sfc, eta = env.param('conv', False), env.param('sfc', True), env.param('eta', 1.0)
    types = env.param('types', ['cl', 'ci', 'pl', 'pi'])
    m = base_model(env)
    pre = 'conv' if conv else 'strat'
    set_N(m, N)
    ins = instrument(env, 'lidar')
    P, TK, Z, qv = grid(env, m, nt, nz, symbolic=env.param('sym', ['p', 'T', 'z']), t_units=env.param('tu', 'kelvin'),
                        p_units=env.param('pu', 'hPa'))
    q, re = {}, {}
    for t in ('cl', 'ci', 'pl', 'pi'):
        if t in types:
            occ = env.bool('occ_' + t, (N, nt, nz), split=True)
            q[t] = env.ite(occ, env.real('q_' + t, (N, nt, nz), 1e-14, 0.01), 0.0)
        else:
            q[t] = np.full((N, nt, nz), 0.003)
        re[t] = env.real('re_' + t, (nt, nz), 1.0, 500.0)
        put(m, pre + '_q_subcolumns_' + t, q[t], sub=True)
        put(m, ('re_c_' if conv else 're_s_') + t, re[t])
    kw = {} if eta == 1.0 else dict(eta=eta)
    m = call(env, m, (N, nt, nz), env.emc2.simulator.lidar_moments.calc_lidar_moments, ins, m, conv, OD_from_sfc=sfc,
                    use_empiric_calc=True, hyd_types=types, **kw)
    tc = TK - 273.15
    rho = P / (287.058 * TK)
    tb, ta, to = 0.0, 0.0, 0.0
    for t in types:
        W = q[t] * rho
        if t[-1] == 'l':
            al = 3 * W / (2 * 1000.0 * 1e-6 * re[t])
        else:
            a, b = 0.00532 * (tc + 90) ** 2.55, 1.31 * env.xp.exp(0.0047 * tc)
            al = (W / a) ** (1 / b)
        A = env.values_of(m.ds['sub_col_alpha_p_%s_%s' % (t, pre)])
        B = env.values_of(m.ds['sub_col_beta_p_%s_%s' % (t, pre)])
        O = env.values_of(m.ds['sub_col_OD_%s_%s' % (t, pre)])
        env.observe('A' + t, A)
        env.check('class extinction', env.close(A, al))
        env.check('class backscatter is extinction over lidar ratio',
                  env.close(B * m.lidar_ratio[t].magnitude, A))
        tb, ta, to = tb + B, ta + A, to + O
    for nm, x in (('beta_p', tb), ('alpha_p', ta), ('OD', to)):
        env.check('total is the sum over the classes', env.close(
            env.values_of(m.ds['sub_col_%s_tot_%s' % (nm, pre)]), x))
    att = env.values_of(m.ds['sub_col_beta_att_tot_' + pre])
    env.check('attenuated backscatter', env.close(att, (env.values_of(m.ds['sigma_180_vol']) + tb) * env.values_of(
        m.ds['tau']) * env.xp.exp(-2.0 * eta * to)))


def gas(env):
    """gaseous radar attenuation"""
    nt, nz = env.param('nt', 1), env.param('nz', 2)
    ghz = env.param('ghz', 35.0)
    m = base_model(env)
    ins = instrument(env, 'radar', ghz=ghz)
    P, TK, Z, _ = grid(env, m, nt, nz, symbolic=['p', 'T'], t_units=env.param('tu', 'kelvin'),
                       p_units=env.param('pu', 'hPa'))
    qv = env.real('qv', (nt, nz), 0.0, 0.03)
    put(m, 'qv', qv, units='kg/kg')
    if env.param('low'):
        P = P / env.param('low')
        put(m, 'p', P / 100.0 if env.param('pu', 'hPa') == 'hPa' else P, units=env.param('pu', 'hPa'))
    m = call(env, m, (0, nt, nz), env.emc2.simulator.attenuation.calc_radar_atm_attenuation, ins, m)
    o2, wv, tot = [env.values_of(m.ds[k]) for k in ('kappa_o2', 'kappa_wv', 'kappa_att')]
    env.observe('o2', o2)
    env.observe('wv', wv)
    p = P / 100.0
    th = 300.0 / TK
    g0 = env.ite(p >= 333, 0.59, env.ite(p < 25, 1.18, 0.59 * (1 + 3.1e-3 * (333 - p))))
    g = g0 * (p / 1013.0) * th ** 0.85
    k = 1.1e-2 * ghz ** 2 * (p / 1013.0) * th ** 2 * g * (1.0 / ((ghz - 60.0) ** 2 + g ** 2) + 1.0 / (ghz ** 2 + g ** 2))
    env.check('oxygen absorption', env.close(o2, k))
    env.check('sum of both gases', env.close(tot, o2 + wv))
    rho = qv * 1e3 * P / (287.058 * TK)
    gl = 2.85 * (p / 1013.0) * th ** 0.626 * (1 + 0.018 * rho * TK / p)
    if env.param('wv', True):
        w = 2 * ghz ** 2 * rho * th ** 1.5 * gl * (th * env.xp.exp(-644.0 / TK) / (
            (494.4 - ghz ** 2) ** 2 + 4 * ghz ** 2 * gl ** 2) + 1.2e-6)
        env.check('water vapour absorption', env.close(wv, w))


def ze_min(env):
    """minimum detectable reflectivity against range"""
    nt, nz = env.param('nt', 2), env.param('nz', 3)
    m = base_model(env)
    ins = instrument(env, 'radar')
    ins.Z_min_1km = env.real('z1', (), -70.0, 0.0)
    z = env.real('z', (nt, nz), 1.0, 30000.0)
    km = env.param('km', False)
    put(m, 'z', z / 1000.0 if km else z, units='kilometer' if km else 'meter')
    ref = env.real('ref', (), 10.0, 10000.0)
    kw = dict(ref_rng=ref) if env.param('ref', True) else {}
    m = call(env, m, (0, nt, nz), env.emc2.simulator.attenuation.calc_radar_Ze_min, ins, m, **kw)
    out = env.values_of(m.ds['Ze_min'])
    env.observe('out', out)
    r = ref if kw else 1000.0
    env.check('grows with the square of the range', env.close(out, ins.Z_min_1km + 20.0 * env.xp.log10(z / r), atol=1e-6))
    env.check('dimensions', tuple(m.ds['Ze_min'].dims) == tuple(m.ds['z'].dims))


HARNESSES = {'optical_depth': optical_depth, 'lidar_total': total, 'ldr': ldr, 'molecular': molecular,
             'lidar_empirical': empirical, 'gas': gas, 'ze_min': ze_min}

T = ('thorough',)
PROPERTIES = {
    'C14': dict(bounds='1..2 times, 2..3 levels; pressure from below 1 hPa to 27000 Pa above the top level, temperature in [230, 300] K, '
                'vapour mixing ratio in [0, 0.03]; 3, 35 and 95 GHz; hPa or Pa, K or degC',
                configs=[('gas', {}, {}), ('gas', dict(ghz=95.04, tu='degC', pu='Pa'), {}),
                         ('gas', dict(low=100.0, ghz=3.0), {}), ('gas', dict(low=5.0, pu='Pa'), {}),
                         ('gas', dict(nt=2, nz=4, ghz=9.7), {})]),
    'C15': dict(bounds='1..2 times, 3..4 levels; wavelengths 0.355, 0.532 and 1.064 um; pressure decreasing from at most 27000 Pa, '
                'temperature in [230, 300] K, any layer thickness in [10, 3000] m; hPa or Pa, K or degC; both directions',
                configs=[('molecular', {}, {}), ('molecular', dict(sfc=False, tu='degC', pu='Pa', um=0.355), {}),
                         ('molecular', dict(um=1.064, nt=2, nz=4, sfc=False), {}),
                         ('molecular', dict(um=0.91, nt=2, nz=8), dict(tiers=T))]),
    'C16': dict(bounds='1..2 subcolumns, 1..2 times, 2..5 levels of any thickness in [1, 5000] m; extinction in [0, 1] 1/m, '
                'backscatter in [0, 0.1], optical depth in [0, 50], molecular backscatter and transmittance arbitrary; '
                'every pattern of missing stratiform or convective values; multiple scattering factor 1 and 0.7',
                configs=[('optical_depth', dict(sfc=s, conv=c, type=t), {}) for s, c, t in
                         ((True, False, 'ci'), (False, False, 'pl'), (True, True, 'cl'), (False, True, 'pi'))] +
                [('optical_depth', dict(sfc=s, nt=2, nz=5, N=1), {}) for s in (True, False)] +
                [('optical_depth', dict(sfc=s, nt=2, nz=12, N=2), dict(tiers=T)) for s in (True, False)] +
                [('lidar_total', dict(N=2, nz=2), {}), ('lidar_total', dict(N=1, nz=2, miss='conv', eta=0.7), {}),
                 ('lidar_total', dict(conv=False, nz=3, sfc=False), {}),
                 ('lidar_total', dict(N=2, nz=3, nt=2, miss='conv'), dict(tiers=T))]),
    'C17': dict(bounds='1..2 subcolumns, 1..2 times, 1..3 levels, two to four classes; backscatter in [0, 1], every depolarization ratio in '
                '[0, 0.6], every optical depth in [0, 20], threshold 4 and 1.5; every pattern of missing values',
                configs=[('ldr', dict(nz=1, bounds=False), {}), ('ldr', dict(nz=1, sub=['ci', 'pl']), {}),
                         ('ldr', dict(types=['cl', 'ci']), {}),
                         ('ldr', dict(types=['cl', 'ci'], nz=3, sfc=False, bounds=False, ext=1.5), {}),
                         ('ldr', dict(types=['cl', 'pi'], nz=3, N=2, conv=False, bounds=False), {}),
                         ('ldr', dict(types=['cl', 'ci'], given=False, miss=True, conv=False), {}),
                         ('ldr', dict(types=['cl', 'ci'], nz=2, nt=2, bounds=False), {}),
                         ('ldr', dict(types=['pl', 'pi'], nz=1, nt=2, N=2, sfc=False, bounds=False), {}),
                         ('ldr', dict(nz=2, N=2, sfc=False), dict(tiers=T))]),
    'C18': dict(bounds='1..2 subcolumns, 1..2 times, 1..2 levels, one to four classes; every occupancy pattern, mixing ratio in [1e-14, 0.01], '
                'effective radius in [1, 500] um, temperature in [230, 300] K, pressures and heights arbitrary',
                configs=[('lidar_empirical', dict(nz=1), {}),
                         ('lidar_empirical', dict(types=['cl', 'ci'], conv=True, eta=0.6, sfc=False), {}),
                         ('lidar_empirical', dict(types=['pi', 'pl'], tu='degC', pu='Pa'), {}),
                         ('lidar_empirical', dict(types=['cl', 'ci'], nt=2), {}),
                         ('lidar_empirical', dict(types=['pl'], N=2, nt=2, nz=1, conv=True), {}),
                         ('lidar_empirical', dict(types=['pi'], N=2, nz=2, sfc=False), {}),
                         ('lidar_empirical', dict(types=['cl', 'pl'], nz=3), dict(tiers=T)),
                         ('lidar_empirical', dict(nz=2), dict(tiers=T))]),
    'C19': dict(bounds='1..2 times, 3 levels; heights in [1, 30000] m, sensitivity in [-70, 0] dBZ, reference range in [10, 10000] m',
                configs=[('ze_min', {}, {}), ('ze_min', dict(km=True), {}), ('ze_min', dict(ref=False, nt=1), {})]),
}
