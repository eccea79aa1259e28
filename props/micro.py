"""Microphysics approach: particle size distributions and single-particle integrals for radar and lidar."""
import math
import numpy as np
from .common import TYPES, base_model, put, set_N, instrument, grid, mie, call

PI = np.pi


def trapz(env, y, x):
    """trapezoidal rule over the last axis of a list of arrays"""
    s = 0.0
    for i in range(len(x) - 1):
        s = s + 0.5 * (y[i] + y[i + 1]) * (x[i + 1] - x[i])
    return s


def psd_ref(env, q, N, rho, mu):
    """slope and intercept of the size distribution with the given mass and number"""
    lam = (PI * rho / 6.0 * N * 1e6 * math.gamma(mu + 4.0) / (q * math.gamma(mu + 1.0))) ** (1.0 / 3.0)
    return lam, N * 1e6 * lam ** (mu + 1.0) / math.gamma(mu + 1.0)


def nssl_speed(env, t, d, rho):
    """fall speed relations of the NSSL scheme as implemented by the package"""
    if t == 'pl':
        return 10.0 * (1.0 - math.exp(-516.575 * d))
    if t == 'cl':
        return 131.6 * d ** 0.824
    if t == 'sn':
        return 21.52823061429272 * d ** 0.42
    if t == 'ci' or t == 'pi':
        return 0.0
    lo = {'gr': 170.0, 'ha': 500.0}[t]
    r = env.ite(rho < lo, lo, env.ite(rho > 800.0, 800.0, rho))
    cd = 0.45 + 0.55 * (800.0 - r)
    cd = env.ite(cd > 1.2, 1.2, cd)
    return env.xp.sqrt(4.0 * rho * 9.81 / (3.0 * cd * 1.007)) * d ** 0.5


def setup(env, kind):
    N, nt, nz = env.param('N', 1), env.param('nt', 1), env.param('nz', 2)
    types = env.param('types', ['cl', 'ci'])
    nssl = env.param('nssl', False)
    fam, mie_ = env.param('rad', 'CESM'), env.param('mie', False)
    sh = (N, nt, nz)
    m = base_model(env, types=['cl', 'ci', 'pl', 'pi'] + [t for t in types if t in ('gr', 'ha', 'sn')], rad=fam,
                   scheme='nssl' if nssl else 'MG2')
    set_N(m, N)
    ins = instrument(env, kind)
    P, TK, Z, qv = grid(env, m, nt, nz, symbolic=env.param('sym', []))
    tabs, q, n, occ = {}, {}, {}, {}
    nd = env.param('nd', 2)
    tsym = env.param('table', True)
    for t in ('cl', 'pl', 'ci', 'pi'):
        tabs[t] = mie(env, ins, t, sym=tsym and (t in types and t in ('cl', 'pl') or mie_), nd=nd)
    ice, dv = {'CESM': ('CESM_ice', 'p_diam'), 'ModelE': ('E3_ice', 'p_diam_eq_V')}[fam]
    it = mie(env, ins, ice, table='scat', sym=tsym and not mie_ and any(t[-1] != 'l' for t in types), nd=nd, diam=dv)
    for t in types:
        occ[t] = env.bool('occ_' + t, sh, split=True)
        qq, nn = env.real('q_' + t, sh, 1e-13, 1e-2), env.real('n_' + t, sh, 1e-3, 1e3)
        q[t], n[t] = qq, nn
        put(m, 'strat_q_subcolumns_' + t, env.ite(occ[t], qq, 0.0), sub=True)
        put(m, 'strat_n_subcolumns_' + t, env.ite(occ[t], nn, 0.0), sub=True)
        put(m, 'strat_frac_subcolumns_' + t, env.ite(occ[t], 1.0, 0.0), sub=True)
    if 'cl' not in types:
        put(m, 'strat_q_subcolumns_cl', np.zeros(sh), sub=True)
    dens = {t: m.Rho_hyd[t].magnitude for t in types}
    if nssl:
        m.variable_density = {}
        for t in ('gr', 'ha'):
            if t in types:
                m.variable_density[t] = 'rho_' + t
                dens[t] = env.real('rho_' + t, (nt, nz), *env.param('rho', [510.0, 790.0]))
                put(m, 'rho_' + t, dens[t])
                m.Rho_hyd[t] = 'variable'
    m.harness_density = dens
    ref = {}
    for t in types:
        mu = 1 / 0.09 if t == 'cl' and not env.param('mu') else (env.param('mu') if t == 'cl' else 0.0)
        D, b, a = it if t[-1] != 'l' and not mie_ else tabs[t if t in ('cl', 'pl', 'ci') else 'pi']
        lam, N0 = psd_ref(env, q[t], n[t], dens[t], mu)
        ND = [N0 * D[i] ** mu * env.xp.exp(-lam * D[i]) for i in range(nd)]
        ref[t] = (D, [ND[i] * b[i] for i in range(nd)], [ND[i] * a[i] for i in range(nd)])
    kw = dict(calc_dispersion=False) if not env.param('mu') else \
        dict(calc_dispersion=True, dispersion_mu_bounds=(env.param('mu'),) * 2)
    kw.update(hyd_types=types, OD_from_sfc=env.param('sfc', True), mie_for_ice=mie_,
              parallel=env.param('parallel', False), chunk=env.param('chunk'))
    return m, ins, Z, P, TK, types, occ, ref, kw, sh


def micro_radar(env):
    """reflectivity, Doppler velocity and spectral width from size distributions"""
    m, ins, Z, P, TK, types, occ, ref, kw, sh = setup(env, 'radar')
    N, nt, nz = sh
    rho = env.real('rho_a', (nt, nz), 0.2, 1.4)
    put(m, 'rho_a', rho)
    m.Vd_rhoa_scaling_ref = {t: {'cl': env.param('cl_ref', 1.1), 'ci': 0.8, 'pl': 1.2, 'pi': 0.95, 'gr': 1.05, 'ha': 0.7, 'sn': 0.9}[t] for t in types
                             if t != env.param('unscaled')}
    part = env.param('part')
    doppler, refl = part != 'ze', part != 'doppler'
    sw = env.param('width', True) and doppler
    m = call(env, m, sh, env.emc2.simulator.radar_moments.calc_radar_moments, ins, m, False, use_rad_logic=False,
             calc_spectral_width=sw, **kw)
    sc = ins.wavelength ** 4 / (ins.K_w * PI ** 5) * 1e-6
    m0, m1, ext, v, mom = 0.0, 0.0, 0.0, {}, {}
    for t in types:
        D, nb, na = ref[t]
        corr = (m.Vd_rhoa_scaling_ref[t] / rho) ** 0.54 if m.Vd_rhoa_scaling_ref.get(t) else 1.0
        if m.mcphys_scheme == 'nssl':
            dn = m.harness_density[t]
            v[t] = [-nssl_speed(env, t, d, dn) * corr for d in D]
        else:
            v[t] = [-m.vel_param_a[t].magnitude * d ** m.vel_param_b[t].magnitude * corr for d in D]
        z = trapz(env, nb, D)
        w = trapz(env, [nb[i] * v[t][i] for i in range(len(D))], D)
        mom[t] = (z, w)
        m0 = m0 + env.ite(occ[t], z, 0.0)
        m1 = m1 + env.ite(occ[t], w, 0.0)
        ext = ext + env.ite(occ[t], trapz(env, na, D), 0.0)
        out = env.values_of(m.ds['sub_col_Ze_%s_strat' % t])
        env.observe('ze_' + t, out)
        if refl:
            env.check('class reflectivity', env.ite(occ[t], env.close(10.0 ** (out / 10.0), z * sc), env.isnan(out)))
        if not doppler:
            continue
        out = env.values_of(m.ds['sub_col_Vd_%s_strat' % t])
        env.observe('vd_' + t, out)
        env.check('class velocity', env.implies(occ[t], env.close(out * z, w)))
        if sw:
            out2 = env.values_of(m.ds['sub_col_sigma_d_%s_strat' % t])
            vd = w / z
            s = trapz(env, [nb[i] * (v[t][i] - vd) ** 2 for i in range(len(D))], D)
            env.observe('sd_' + t, out2)
            env.check('class spectral width', env.implies(occ[t], env.close(
                out2, env.xp.sqrt(s / z), atol=1e-9)))
    T = env.values_of(m.ds['sub_col_Ze_tot_strat'])
    V = env.values_of(m.ds['sub_col_Vd_tot_strat'])
    env.observe('T', T)
    env.observe('V', V)
    some = False
    for t in types:
        some = env.or_(some, occ[t])
    if refl:
        env.check('total reflectivity', env.ite(some, env.close(10.0 ** (T / 10.0), m0 * sc), env.isnan(T)))
    if doppler:
        env.check('total velocity weighted by backscatter', env.implies(some, env.close(V * m0, m1)))
        env.check('no velocity without hydrometeors', env.or_(some, env.isnan(V)))
    if sw:
        S = env.values_of(m.ds['sub_col_sigma_d_tot_strat'])
        env.observe('S', S)
        vm = m1 / env.ite(some, m0, 1.0)
        s = 0.0
        for t in types:
            D, nb, na = ref[t]
            s = s + env.ite(occ[t], trapz(env, [nb[i] * (v[t][i] - vm) ** 2 for i in range(len(D))], D), 0.0)
        env.check('total spectral width about the total velocity', env.implies(some, env.close(
            S, env.xp.sqrt(s / env.ite(some, m0, 1.0)), atol=1e-9)))
        env.check('no width without hydrometeors', env.or_(some, env.isnan(S)))
    if not refl:
        return
    H = env.values_of(m.ds['hyd_ext_strat'])
    for k in range(nz):
        od = 0.0
        for j in (range(1, k + 1) if kw['OD_from_sfc'] else range(k, nz - 1)):
            od = od + ((Z[:, j] - Z[:, j - 1]) * ext[:, :, j - 1] if kw['OD_from_sfc'] else
                       (Z[:, j + 1] - Z[:, j]) * ext[:, :, j + 1])
        env.check('attenuated by the extinction passed', env.close(H[:, :, k], env.xp.exp(-2.0 * od)))


def micro_lidar(env):
    """backscatter, extinction and optical depth from size distributions"""
    m, ins, Z, P, TK, types, occ, ref, kw, sh = setup(env, 'lidar')
    N, nt, nz = sh
    m = call(env, m, sh, env.emc2.simulator.lidar_moments.calc_lidar_moments, ins, m, False, use_rad_logic=False, **kw)
    tot = {'beta': 0.0, 'alpha': 0.0}
    for t in types:
        D, nb, na = ref[t]
        for nm, y in (('beta', nb), ('alpha', na)):
            r = env.ite(occ[t], trapz(env, y, D), 0.0)
            out = env.values_of(m.ds['sub_col_%s_p_%s_strat' % (nm, t)])
            env.observe(nm + t, out)
            env.check('class ' + {'beta': 'backscatter', 'alpha': 'extinction'}[nm], env.close(out, r))
            tot[nm] = tot[nm] + r
    for nm in tot:
        out = env.values_of(m.ds['sub_col_%s_p_tot_strat' % nm])
        env.check('total is the sum over the classes', env.close(out, tot[nm]))
    OD = env.values_of(m.ds['sub_col_OD_tot_strat'])
    sfc = kw['OD_from_sfc']
    for k in range(nz):
        od = 0.0
        for j in (range(1, k + 1) if sfc else range(k, nz - 1)):
            od = od + ((Z[:, j] - Z[:, j - 1]) * tot['alpha'][:, :, j - 1] if sfc else
                       (Z[:, j + 1] - Z[:, j]) * tot['alpha'][:, :, j + 1])
        env.check('optical depth of the layers passed', env.close(OD[:, :, k], od + 0.0 * tot['alpha'][:, :, 0]))


def psd(env):
    """parameters of the size distribution"""
    N, nt, nz = env.param('N', 1), env.param('nt', 1), env.param('nz', 2)
    t, conv = env.param('t', 'cl'), env.param('conv', False)
    sh = (N, nt, nz)
    m = base_model(env, types=TYPES + [x for x in [t] if x not in TYPES])
    m.model_name = env.param('model', 'harness')
    set_N(m, N)
    rho = m.Rho_hyd[t].magnitude
    if env.param('var'):
        # particle density given per cell (as with the NSSL scheme)
        rho = env.real('rho', (nt, nz), 50.0, 900.0)
        m.Rho_hyd[t], m.variable_density = 'variable', {t: 'rho_' + t}
        put(m, 'rho_' + t, rho)
    pre = 'conv' if conv else 'strat'
    occ = env.bool('occ', sh)
    qq, nn = env.real('q', sh, 1e-14, 1e-2), env.real('n', sh, *env.param('n', [1e-3, 2e3]))
    put(m, '%s_q_subcolumns_%s' % (pre, t), env.ite(occ, qq, 0.0), sub=True)
    put(m, '%s_n_subcolumns_%s' % (pre, t), env.ite(occ, nn, 0.0), sub=True)
    kw = {}
    if env.param('disp') is not None:
        kw['calc_dispersion'] = env.param('disp')
    b = env.param('bounds')
    if b:
        kw['dispersion_mu_bounds'] = tuple(b)
    if not env.param('default'):
        kw['hyd_type'] = t
    m = call(env, m, sh, env.emc2.simulator.psd.calc_mu_lambda, m, is_conv=conv, **kw)
    mu, lam, N0 = (env.values_of(m.ds[x]) for x in ('mu', 'lambda', 'N_0'))
    env.observe('mu', mu)
    fixed = env.param('fixed')
    if fixed is not None:
        env.check('shape parameter', env.close(mu, fixed + 0.0 * nn))
        g1, g4 = math.gamma(fixed + 1.0), math.gamma(fixed + 4.0)
        env.observe('lam', lam)
        env.check('number concentration', env.implies(occ, env.close(N0 * g1, nn * 1e6 * lam ** (fixed + 1.0))))
        env.check('mass mixing ratio', env.implies(occ, env.close(qq * lam ** 3 * g1, PI * rho / 6.0 * nn * 1e6 * g4)))
        env.check('slope is positive', env.implies(occ, lam > 0))
    lo, hi = b or (2, 15)
    if fixed is None:
        env.check('shape parameter within its bounds', env.and_(mu >= lo, mu <= hi))
        if env.param('martin'):
            eta = 0.0005714 * env.ite(occ, nn, 0.0) + 0.2714
            x = 1.0 / eta ** 2 - 1.0
            ref = env.ite(x < lo, lo, env.ite(x > hi, hi, x))
            env.check('shape parameter follows the droplet number', env.close(mu, ref + 0.0 * nn))
    env.check('no distribution without water', env.or_(occ, env.isnan(lam)))


HARNESSES = {'micro_radar': micro_radar, 'micro_lidar': micro_lidar, 'psd': psd}

T = ('thorough',)
ZE, DO = dict(part='ze'), dict(part='doppler')
PROPERTIES = {
    'C20': dict(bounds='1..2 subcolumns, 1..3 times, 1..2 levels; mixing ratio in [1e-14, 0.01], number in [1e-3, 2e3] per cm3 or none; '
                'density of the class or any in [50, 900] per cell; '
                'any occupancy; bounds of the shape parameter (2, 15), (3, 5), (2, 2)',
                configs=[('psd', dict(disp=False, fixed=1 / 0.09), {}),
                         ('psd', dict(model='DHARMA', fixed=1 / 0.09), {}),
                         ('psd', dict(model='ModelE3', fixed=1 / 0.09), {}),
                         ('psd', dict(t='ci', fixed=0.0, N=2), {}), ('psd', dict(t='pl', fixed=0.0, disp=True), {}),
                         ('psd', dict(fixed=0.0, conv=True, nt=2), {}), ('psd', dict(bounds=[3, 5], nt=2), {}),
                         ('psd', dict(t='gr', fixed=0.0, N=2, nt=2, var=True), {}), ('psd', dict(t='pl', fixed=0.0, nt=3, nz=1), {}), ('psd', dict(disp=False, fixed=1 / 0.09, default=True), {}),
                         ('psd', dict(bounds=[2, 2], fixed=2.0), {}),
                         ('psd', dict(bounds=[3, 4], n=[1e-3, 2e3], N=2), dict(tiers=T)),
                         ('psd', dict(martin=True, nz=1), {})]),
    'C21': dict(bounds='1..2 subcolumns, 1..3 times, 1..3 levels, one to three classes, 2..3 particle sizes with arbitrary cross '
                'sections; every occupancy pattern, mixing ratio in [1e-13, 0.01], number in [1e-3, 1e3] per cm3; heights '
                'arbitrary in the attenuation configurations',
                configs=[('micro_radar', dict(nz=1, types=['pl', 'cl'], nd=3, **ZE), {}),
                         ('micro_radar', dict(nz=1, types=['pi', 'cl'], nd=3, mu=3, mie=True, **ZE), {}),
                         ('micro_radar', dict(nz=2, types=['pl', 'ci'], sym=['z'], rad='ModelE', **ZE), {}),
                         ('micro_radar', dict(nz=3, types=['pl'], sym=['z'], sfc=False, **ZE), {}),
                         ('micro_radar', dict(nz=3, types=['cl'], sym=['z'], N=1, **ZE), {}),
                         ('micro_radar', dict(nz=1, types=['ci', 'pi', 'cl'], N=1, table=False, **ZE), {}),
                         ('micro_radar', dict(nz=1, types=['ci', 'cl'], N=2, mie=True, **ZE), {}),
                         ('micro_radar', dict(nz=1, nt=3, types=['cl'], parallel=True, chunk=2, **ZE), {}),
                         ('micro_radar', dict(nz=1, nt=3, types=['pi'], parallel=True, chunk=2, **ZE), {}),
                         ('micro_radar', dict(nz=1, nt=2, types=['pi'], parallel=True, **ZE), {}),
                         ('micro_radar', dict(nz=1, types=['gr'], nssl=True, **ZE), {}),
                         ('micro_radar', dict(nz=1, types=['sn', 'gr'], nssl=True, mie=True, **ZE), {}),
                         ('micro_radar', dict(nz=1, types=['cl', 'pl'], N=2, table=False, **ZE), {}),
                         ('micro_radar', dict(nz=2, types=['cl'], N=2, table=False, **ZE), {}),
                         ('micro_radar', dict(nz=2, types=['pi'], N=2, table=False, **ZE), {}),
                         ('micro_radar', dict(nz=1, types=['cl', 'ci', 'pl', 'pi'], table=False, nt=1, **ZE), dict(tiers=T)),
                         ('micro_radar', dict(nz=2, types=['cl', 'ci'], sym=['z'], N=2, **ZE), dict(tiers=T)),
                         ('micro_radar', dict(nz=3, types=['cl', 'pi'], sym=['z'], sfc=False, **ZE), dict(tiers=T))]),
    'C22': dict(bounds='1..2 subcolumns, 1..3 times, 1..2 levels, one to three classes, 2..3 particle sizes with arbitrary cross '
                'sections; every occupancy pattern, mixing ratio in [1e-13, 0.01], number in [1e-3, 1e3] per cm3, air density '
                'in [0.2, 1.4]; NSSL particle density in [510, 790] and [810, 950]',
                configs=[('micro_radar', dict(nz=1, types=['cl', 'ci'], **DO), {}),
                         ('micro_radar', dict(nz=1, types=['pl', 'cl'], nd=3, **DO), {}),
                         ('micro_radar', dict(nz=1, types=['pi', 'cl'], mu=3, mie=True, rad='ModelE', **DO), {}),
                         ('micro_radar', dict(nz=1, types=['ci', 'pi', 'cl'], table=False, unscaled='ci', **DO), {}),
                         ('micro_radar', dict(nz=2, types=['ci', 'pl'], table=False, width=False, **DO), {}),
                         ('micro_radar', dict(nz=1, nt=3, types=['cl'], parallel=True, chunk=2, **DO), {}),
                         ('micro_radar', dict(nz=1, nt=3, types=['pi'], parallel=True, chunk=2, **DO), {}),
                         ('micro_radar', dict(nz=1, nt=2, types=['pi'], parallel=True, **DO), {}),
                         ('micro_radar', dict(nz=1, N=2, types=['cl'], cl_ref=None, **DO), {}),
                         ('micro_radar', dict(nz=1, types=['gr'], nssl=True, **DO), {}),
                         ('micro_radar', dict(nz=1, types=['sn', 'cl'], nssl=True, **DO), {}),
                         ('micro_radar', dict(nz=1, types=['ci', 'cl'], mie=True, **DO), {}),
                         ('micro_radar', dict(nz=1, types=['cl', 'pl'], N=2, table=False, width=False, **DO), {}),
                         ('micro_radar', dict(nz=1, types=['cl', 'ha'], nssl=True, rho=[810, 950], **DO), {}),
                         ('micro_radar', dict(nz=1, types=['ha'], nssl=True, rho=[300, 490], **DO), {}),
                         ('micro_radar', dict(nz=1, types=['gr'], nssl=True, rho=[100, 165], **DO), {}),
                         ('micro_radar', dict(nz=2, types=['cl'], table=False, **DO), {}),
                         ('micro_radar', dict(nz=2, nt=2, types=['pl'], table=False, **DO), {}),
                         ('micro_radar', dict(nz=1, types=['ci', 'cl'], N=2, table=False, **DO), {}),
                         ('micro_radar', dict(nz=1, types=['cl', 'ci', 'pl', 'pi'], table=False, **DO), dict(tiers=T)),
                         ('micro_radar', dict(nz=2, types=['cl', 'ci'], rad='ModelE', **DO), dict(tiers=T))]),
    'C23': dict(bounds='1..2 subcolumns, 1..3 times, 1..3 levels, one to four classes, 2..4 particle sizes with arbitrary cross '
                'sections; every occupancy pattern, mixing ratio in [1e-13, 0.01], number in [1e-3, 1e3] per cm3',
                configs=[('micro_lidar', dict(nz=1, types=['cl', 'ci', 'pl', 'pi']), {}),
                         ('micro_lidar', dict(nz=3, types=['pl'], sym=['z'], sfc=False), {}),
                         ('micro_lidar', dict(nz=3, types=['cl'], sym=['z'], nd=3), {}),
                         ('micro_lidar', dict(nz=2, types=['ci', 'cl'], sym=['z'], rad='ModelE'), {}),
                         ('micro_lidar', dict(nz=1, types=['ci', 'cl'], nt=3, parallel=True, chunk=2, rad='ModelE'), {}),
                         ('micro_lidar', dict(nz=1, types=['ci', 'pi'], N=2, mie=True), {}),
                         ('micro_lidar', dict(nz=1, types=['ha', 'pl'], nssl=True), {}),
                         ('micro_lidar', dict(nz=2, types=['pl', 'cl'], N=2, mu=3), dict(tiers=T)),
                         ('micro_lidar', dict(nz=3, types=['cl', 'ci'], sym=['z'], nd=4), dict(tiers=T))]),
}
