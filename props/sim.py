"""The whole simulation: subcolumn generator, moments, detection and classification in one call."""
import numpy as np
import xarray as xr
from .common import base_model, put, set_N, instrument, decoys, model_fields
from .same import build, clone

QT = 1e-18


def _inst(env, ins):
    ins.OD_from_sfc = env.param('sfc', True)
    if ins.instrument_class == 'radar':
        return ins
    ins.ext_OD = env.param('ext', 4.0)
    ins.eta = env.param('eta', 0.8)
    ins.instrument_str = env.param('str', 'HSRL')
    ins.beta_p_phase_thresh = [{'class': 'liquid', 'class_ind': 1, 'LDR': [0.0, 0.1, 0.2], 'beta_p': [2e-5, 2e-5, 5e-5]},
                               {'class': 'ice', 'class_ind': 2, 'LDR': [0.0, 0.1, 1.0], 'beta_p': [1.0, 1e-6, 1e-6]}]
    return ins


def simulate(env):
    """the one call gives what its steps give, one after the other, with the options reaching every step"""
    kind, logic = env.param('kind', 'radar'), env.param('logic', 'bulk')
    types, conv = env.param('types', ['cl', 'ci']), env.param('conv', True)
    N, nt, nz = sh = (env.param('N', 1), env.param('nt', 1), env.param('nz', 2))
    S = env.emc2.simulator
    m, ins = build(env, kind, logic, types, sh, env.param('conv_sym', False))
    m.process_conv = conv
    _inst(env, ins)
    old = set(m.ds.variables)
    opt = dict(env.param('opt', {}))
    sfc = opt.get('OD_from_sfc', ins.OD_from_sfc)
    hyd = opt.get('hyd_types')
    k = dict(OD_from_sfc=sfc, hyd_types=hyd, use_rad_logic=opt.get('use_rad_logic', logic == 'bulk'),
             use_empiric_calc=logic == 'emp', parallel=opt.get('parallel', False), chunk=opt.get('chunk'))
    given = dict(opt, use_empiric_calc=logic == 'emp')
    if logic != 'bulk' or 'use_rad_logic' in opt:
        given['use_rad_logic'] = k['use_rad_logic']
    given.setdefault('parallel', False)
    mie = opt.get('mie_for_ice')
    more = {}
    if logic == 'micro':
        more = dict(calc_dispersion=False)
        given.update(more)
    classify, fin = env.param('classify', False), env.param('fin', False)
    z2n = opt.get('convert_zeros_to_nan', False)

    a = env.returns('runs', S.main.make_simulated_data, clone(env, m), ins, N, do_classify=classify, skip_subcol_gen=True,
                    finalize_fields=fin, **dict(given, **({} if env.param('width', True) else
                                                          dict(calc_spectral_width=False))))

    b = clone(env, m)
    rad = k['use_rad_logic']

    def step(fn, *x, **y):
        return env.returns('step runs', fn, *x, **y)
    for cv in (False, True) if conv else (False,):
        mi = mie if mie is not None else (not rad and not cv)
        if kind == 'radar':
            b = step(S.radar_moments.calc_radar_moments, ins, b, cv, mie_for_ice=mi,
                     calc_spectral_width=env.param('width', True), **dict(k, **more))
        else:
            b = step(S.lidar_moments.calc_lidar_moments, ins, b, cv, mie_for_ice=mi,
                     eta=opt.get('eta', ins.eta), **dict(k, **more))
    if kind == 'radar':
        b = step(S.attenuation.calc_radar_Ze_min, ins, b, opt.get('ref_rng', 1000))
        b = step(S.radar_moments.calc_total_reflectivity, b, detect_mask=True)
        if classify:
            b = step(S.classification.radar_classify_phase, ins, b, mask_height_rng=opt.get('mask_height_rng'),
                     convert_zeros_to_nan=z2n)
    else:
        eta = opt.get('eta', ins.eta)
        b = step(S.lidar_moments.calc_total_alpha_beta, b, OD_from_sfc=sfc, eta=eta)
        b = step(S.lidar_moments.calc_LDR_and_ext, b, ext_OD=opt.get('ext_OD', ins.ext_OD), OD_from_sfc=sfc, hyd_types=hyd)
        if classify:
            b = step(S.classification.lidar_classify_phase, ins, b, convert_zeros_to_nan=z2n)
            b = step(S.classification.lidar_emulate_cosp_phase, ins, b, eta=eta, OD_from_sfc=sfc,
                     convert_zeros_to_nan=z2n, hyd_types=hyd)
    if fin:
        b.finalize_subcol_fields()
    na, nb = sorted(a.ds.variables), sorted(b.ds.variables)
    env.check('the same fields', na == nb)
    env.check('something was calculated', len(set(na) - old) >= 4)
    for n in na:
        if n in old and not fin:
            continue
        x, y = env.values_of(a.ds[n]), env.values_of(b.ds[n])
        env.check('the same dimensions', tuple(a.ds[n].dims) == tuple(b.ds[n].dims) and tuple(x.shape) == tuple(y.shape))
        env.check('the same values', env.close(x, y))


def generate(env):
    """subcolumns of a whole model in one call: cloud in its place and all of the water and particles in it"""
    N, nt, nz = sh = (env.param('N', 2), env.param('nt', 1), env.param('nz', 2))
    types, rad, conv = env.param('types', ['cl', 'ci', 'pl', 'pi']), env.param('rad', True), env.param('conv', True)
    sym = env.param('sym', ['s_cl'])
    m = base_model(env, types=types, process_conv=conv)
    ins = instrument(env, 'radar')
    fr, q, num = {}, {}, {}
    n = 0
    for t in types:
        for p in ('s', 'c'):
            n += 1
            key = p + '_' + t
            if key in sym:
                fr[key] = env.real('f' + key, (nt, nz), 0.0, 1.0)
            else:
                fr[key] = env.param('fr', {}).get(key, 0.5) * np.ones((nt, nz))
            q[key] = env.real('q' + key, (nt, nz), 1e-14, 0.01)
            if key in env.param('dry', []):
                q[key] = env.ite(env.bool('dry' + key, (nt, nz)), 0.0, q[key])
            oth = np.full((nt, nz), 0.31 + 0.03 * n)
            put(m, p + 'fr_' + t, fr[key] if rad else oth)
            put(m, p + 'f_' + t, oth if rad else fr[key])
            put(m, 'q' + key, q[key])
        num[t] = env.real('n_' + t, (nt, nz), 0.0, 1e3)
        put(m, 'N_' + t, num[t])
    decoys(env, m, 0, nt, nz)
    kw = dict(parallel=env.param('parallel', False))
    if env.param('chunk'):
        kw['chunk'] = env.param('chunk')
    if not rad:
        kw['use_rad_logic'] = False
    m = env.returns('runs', env.emc2.simulator.main.make_simulated_data, m, ins, N, subcol_gen_only=True, **kw)
    M = {}

    def cover(key, it, j):
        r = env.xp.round(fr[key][it, j] * N)
        return env.ite(q[key][it, j] > QT, r, 0.0) if rad else r
    for t in types:
        for p in ('s', 'c') if conv else ('s',):
            pre = dict(s='strat', c='conv')[p]
            d = m.ds['%s_frac_subcolumns_%s' % (pre, t)]
            M[p + '_' + t] = o = env.b(env.values_of(d))
            Q = env.values_of(m.ds['%s_q_subcolumns_%s' % (pre, t)])
            env.check('shape', tuple(o.shape) == sh and tuple(Q.shape) == sh)
            env.observe(p + t, o)
            NN = env.values_of(m.ds['strat_n_subcolumns_' + t]) if p == 's' else None
            f, w = fr[p + '_' + t], q[p + '_' + t]
            for it in range(nt):
                for j in range(nz):
                    oc, fj = o[:, it, j], f[it, j]
                    c = env.count(oc)
                    env.check('a class of no cover is in no subcolumn', env.implies(fj == 0, c == 0))
                    fs = env.ite(fj == 0, 1.0, fj)
                    env.check('its water is in its subcolumns',
                              env.close(env.xp.sum(Q[:, it, j]), w[it, j] / fs * c, atol=1e-14))
                    env.check('and nowhere else', env.implies(env.not_(oc), Q[:, it, j] == 0))
                    if t != 'cl' or p == 'c' or rad:
                        env.check('evenly', env.implies(oc, env.close(Q[:, it, j], w[it, j] / fs)))
                    if NN is not None:
                        env.check('particles in its subcolumns', env.close(NN[:, it, j], env.ite(
                            oc, num[t][it, j] / fs, 0.0)))
                    if j < nz - 1 and t in ('pl', 'pi'):
                        env.check('cover of precipitation', c == cover(p + '_' + t, it, j))
    for it in range(nt):
        for j in range(nz - 1):
            rc = {t: cover('s_' + t, it, j) for t in ('cl', 'ci')}
            over = env.and_(rc['cl'] == N, rc['ci'] == N)
            cv = env.or_(M['c_cl'][:, it, j], M['c_ci'][:, it, j]) if conv else None
            free = N - env.count(cv) if conv else N
            for t in ('cl', 'ci'):
                o = M['s_' + t][:, it, j]
                env.check('cover of cloud', env.count(o) == env.ite(over, N, env.xp.minimum(rc[t], free)))
                if conv:
                    env.check('stratiform cloud outside convection', env.or_(over, env.not_(env.any(env.and_(o, cv)))))
                    env.check('cover of convection', env.count(M['c_' + t][:, it, j]) == cover('c_' + t, it, j))


HARNESSES = dict(simulate=simulate, generate=generate)
T = dict(tiers=('thorough',))


def S(kind, logic, opt=None, tier=None, **p):
    return ('simulate', dict(kind=kind, logic=logic, **dict(p, **(dict(opt=opt) if opt else {}))), tier or {})


def G(tier=None, **p):
    return ('generate', p, tier or {})


PROPERTIES = {
    'C40': dict(
        bounds='1 subcolumn, 1..2 times, 1..2 levels; up to two symbolic classes (stratiform or convective) among four; mixing '
               'ratio in [1e-6, 0.01], effective radius in [26, 45], every occupancy; the options of the configurations',
        configs=[
            S('radar', 'bulk', types=['cl'], classify=True, fin=True,
              opt=dict(OD_from_sfc=False, ref_rng=500, mask_height_rng=[800.0, 5000.0], convert_zeros_to_nan=True)),
            S('radar', 'emp', classify=True), S('radar', 'emp', types=['cl'], conv_sym=True, sfc=False),
            S('radar', 'bulk', types=['ci'], opt=dict(mie_for_ice=True), sfc=False),
            S('radar', 'micro', types=['ci'], nz=1, width=False), S('radar', 'micro', types=['ci'], conv_sym=True, width=False),
            S('lidar', 'micro', types=['ci'], conv_sym=True), S('lidar', 'emp', types=['ci'], nz=3, conv=False,
                                                                      opt=dict(OD_from_sfc=False)),
            S('radar', 'micro', types=['cl'], nz=1, nt=2, opt=dict(parallel=True, chunk=1)),
            S('radar', 'bulk', conv=False, types=['pl'], opt=dict(hyd_types=['pl', 'cl'])),
            S('lidar', 'emp', types=['cl'], classify=True),
            S('lidar', 'bulk', types=['ci'], classify=True, sfc=False,
              opt=dict(eta=0.6, ext_OD=2.0, hyd_types=['cl', 'ci'], convert_zeros_to_nan=True)),
            S('lidar', 'bulk', types=['ci'], conv=False, opt=dict(OD_from_sfc=False, mie_for_ice=True)),
            S('lidar', 'micro', types=['cl'], conv_sym=True), S('lidar', 'micro', types=['ci'], nz=1, fin=True),
            S('lidar', 'bulk', conv=False, types=['pl'], opt=dict(hyd_types=['pl', 'cl'])),
            S('radar', 'bulk', tier=T), S('lidar', 'bulk', tier=T), S('lidar', 'emp', tier=T, classify=True),
            S('radar', 'micro', tier=T, nz=1), S('lidar', 'micro', tier=T, nz=1)],
        assumptions=['the subcolumn fields are given (the generator is C41)']),
    'C41': dict(
        bounds='2..4 subcolumns, 2..3 levels, 1..2 times, four classes, stratiform and convective; the cover of up to four kinds '
               'of cloud arbitrary in [0,1], the others constant; every mixing ratio in [1e-14, 0.01], for some also 0; number in '
               '[0, 1000]; every outcome of the random choices',
        configs=[G(conv=False), G(sym=['s_cl', 's_ci']), G(sym=['c_cl', 's_ci'], N=3), G(sym=['s_pl', 'c_pl']),
                 G(sym=['s_cl'], rad=False), G(sym=['s_cl'], rad=False, conv=False, N=3),
                 G(sym=['c_pi', 's_pi'], rad=False, parallel=True, nt=2, chunk=1), G(sym=['s_cl'], dry=['s_cl', 'c_cl']),
                 G(sym=['s_cl', 'c_cl'], N=3, rad=False, dry=['s_cl']), G(sym=['c_ci', 's_ci', 's_cl', 'c_cl'], tier=T),
                 G(sym=['s_cl'], N=3, nz=3), G(sym=['s_pi', 's_ci'], N=3, nz=3, conv=False, dry=['s_pi'], tier=T),
                 G(sym=['s_cl'], N=4, conv=False, rad=False, tier=T)]),
}
