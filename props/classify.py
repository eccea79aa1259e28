"""Phase classification masks and phase ratios."""
import numpy as np
import xarray as xr
from .common import base_model, put, set_N, instrument, call


def _masks(env, m, name, want, zero, sh, long=False):
    x = env.values_of(m.ds[name])
    env.check('shape of the mask', tuple(x.shape) == tuple(sh) and m.ds[name].dims[0] == 'subcolumn')
    env.observe(name, x)
    if zero == 'nan':
        env.check('class of every cell', env.ite(want == 0, env.isnan(x), x == want))
    else:
        env.check('class of every cell', x == want)


def radar_phase(env):
    """radar-sounding mask: 1 cloud, 2 both, 3 precipitation, 0 neither"""
    N, nt, nz = sh = env.param('N', 2), env.param('nt', 2), env.param('nz', 2)
    conv, rng, zero = env.param('conv', True), env.param('rng'), env.param('zero', '0')
    m = base_model(env, process_conv=conv)
    set_N(m, N)
    ins = instrument(env, 'radar')
    Ze, cl = {}, {}
    for p, nm in (('strat', '_strat'), ('conv', '_conv'), ('tot', '')):
        x = env.real('Ze_' + p, sh, -80.0, 40.0)
        Ze[p] = env.ite(env.bool('no_' + p, sh), np.nan, x) if p == env.param('miss', 'tot') else x
        put(m, 'sub_col_Ze_att_tot' + nm, Ze[p], sub=True)
    for p in ('strat', 'conv'):
        cl[p] = env.bool('cl_' + p, sh)
        put(m, p + '_frac_subcolumns_cl', cl[p] if env.param('boolfrac') else env.ite(cl[p], 1.0, 0.0), sub=True)
    zmin = env.real('Ze_min', (nt, nz), -70.0, -10.0)
    put(m, 'Ze_min', zmin)
    z = env.xp.cumsum(env.real('dz', (nt, nz), 1.0, 8000.0), axis=1)
    put(m, 'z', z, units='meter')
    if rng is not None:
        lo = env.real('lo', (), 0.0, 5000.0)
        rng = (lo, lo + env.real('dh', (), 0.0, 9000.0))
    m = call(env, m, sh, env.emc2.simulator.classification.radar_classify_phase, ins, m, mask_height_rng=rng,
             convert_zeros_to_nan=zero == 'nan')
    todo = [('phase_mask_TST_sounding_all_hyd', 'tot', env.or_(cl['strat'], cl['conv']) if conv else cl['strat'])]
    if conv:
        todo += [('strat_phase_mask_TST_sounding', 'strat', cl['strat']),
                 ('conv_phase_mask_TST_sounding', 'conv', cl['conv'])]
    for name, p, c in todo:
        pr = env.and_(env.not_(env.isnan(Ze[p])), env.ite(env.isnan(Ze[p]), -999.0, Ze[p]) >= zmin[None])
        w = env.ite(c, env.ite(pr, 2, 1), env.ite(pr, 3, 0))
        if rng is not None:
            w = env.ite(env.and_(z >= rng[0], z <= rng[1])[None] if nz else None, w, 0)
        _masks(env, m, name, w, zero, sh)


def lidar_phase(env):
    """fixed-threshold lidar mask in the LDR - backscatter plane"""
    N, nt, nz = sh = env.param('N', 2), env.param('nt', 1), env.param('nz', 2)
    conv, zero, rem = env.param('conv', True), env.param('zero', '0'), env.param('remove', True)
    nthr = env.param('nthr', 2)
    m = base_model(env, process_conv=conv)
    set_N(m, N)
    ins = instrument(env, 'lidar')
    ins.ext_OD = env.real('ext_OD', (), 0.5, 10.0)
    ldr = np.array(env.param('ldr', [0.0, 0.3, 1.0]))
    ldr0 = ldr
    inds = env.param('inds', [2, 1, 3])[:nthr]
    thr, lthr = [], []
    for i in range(nthr):
        lb = env.real('thr%d' % i, (len(ldr),), -8.0, -2.0)
        lthr.append(lb)
        thr.append(dict({'class': 'c%d' % i, 'class_ind': inds[i], 'LDR': ldr + 0.05 * i, 'beta_p': 10.0 ** lb}))
    v = {}
    for p, nm in (('strat', '_strat'), ('conv', '_conv'), ('tot', '')):
        lb = env.real('lb_' + p, sh, -9.0, -1.0)
        has = env.bool('has_' + p, sh)
        d = env.real('LDR_' + p, sh, -0.1, 1.2)
        od = env.real('OD_' + p, sh, 0.0, 12.0)
        v[p] = (lb, has, d, od)
        put(m, 'sub_col_beta_p_tot' + nm, env.ite(has, 10.0 ** lb, 0.0), sub=True)
        put(m, 'sub_col_LDR' + (nm or '_tot'), env.ite(has, d, np.nan), sub=True)
        put(m, 'sub_col_OD_tot' + nm, od, sub=True)
    k = {}
    if env.param('default'):
        ins.beta_p_phase_thresh = thr
    else:
        ins.beta_p_phase_thresh = [dict({'class': 'other', 'class_ind': 1, 'LDR': [0.0, 1.0], 'beta_p': [1e-6, 1e-6]})]
        k['beta_p_phase_thresh'] = thr
    m = call(env, m, sh, env.emc2.simulator.classification.lidar_classify_phase, ins, m,
             convert_zeros_to_nan=zero == 'nan', remove_sub_detect=rem, **k)
    for p in ('strat', 'conv', 'tot') if conv else ('tot',):
        name = 'phase_mask_TST_all_hyd' if p == 'tot' else p + '_phase_mask_TST'
        lb, has, d, od = v[p]
        w = 0
        for i in range(nthr):
            t, ldr = lthr[i], ldr0 + 0.05 * i
            f = env.ite(d <= ldr[0], t[0], t[-1])
            for j in range(len(ldr) - 1):
                f = env.ite(env.and_(d > ldr[j], d <= ldr[j + 1]),
                            t[j] + (t[j + 1] - t[j]) * ((d - ldr[j]) / (ldr[j + 1] - ldr[j])), f)
            w = env.ite(env.and_(has, lb >= f), inds[i], w)
        if rem:
            w = env.ite(od > ins.ext_OD, 0, w)
        _masks(env, m, name, w, zero, sh)
        leg = [''] * nthr
        for i in range(nthr):
            leg[inds[i] - 1] = 'c%d' % i
        env.check('legend', list(m.ds[name].attrs['legend']) == leg)


COSP_KEYS = ('strat', 'conv', 'all_hyd')


def _all(types):
    return ['cl', 'ci', 'pl', 'pi'] + [t for t in types if t not in ('cl', 'ci', 'pl', 'pi')]


def _cosp(env, fixed=False):
    """a model with the lidar fields the COSP emulation needs"""
    N, nt, nz = sh = env.param('N', 1), env.param('nt', 1), env.param('nz', 2)
    conv, types = env.param('conv', True), env.param('types', ['cl', 'ci', 'pl', 'pi'])
    m = base_model(env, process_conv=conv)
    set_N(m, N)
    ins = instrument(env, 'lidar')
    ins.instrument_str = 'HSRL'
    eta = env.param('eta', 0.7)
    b, od = {}, {}
    symb = env.param('symb')
    for p in ('strat', 'conv'):
        for i, t in enumerate(_all(types)):
            if symb is None or t in symb:
                x = env.real('b_%s_%s' % (t, p), sh, 0.0, 1e-3)
                o = np.full(sh, 0.1 * (i + 1)) if fixed else env.real('od_%s_%s' % (t, p), sh, 0.0, 5.0)
            else:
                x, o = np.full(sh, 1e-5 * (i + 1)), np.full(sh, 0.1 * (i + 1))
            if t == env.param('miss', None if fixed else 'pl'):
                g = env.bool('no_%s_%s' % (t, p), sh)
                put(m, 'sub_col_beta_p_%s_%s' % (t, p), env.ite(g, np.nan, x), sub=True)
                put(m, 'sub_col_OD_%s_%s' % (t, p), env.ite(g, np.nan, o), sub=True)
                x, o = env.ite(g, 0.0, x), env.ite(g, 0.0, o)
            else:
                put(m, 'sub_col_beta_p_%s_%s' % (t, p), x, sub=True)
                put(m, 'sub_col_OD_%s_%s' % (t, p), o, sub=True)
            b[p, t], od[p, t] = x, o
    for p in ('strat', 'conv'):
        put(m, 'sub_col_beta_p_tot_' + p, np.full(sh, 2.2e-5), sub=True)
    if fixed:
        sg, tau = np.tile(np.linspace(1.5e-6, 8e-7, nz), (nt, 1)), np.tile(np.linspace(0.6, 0.9, nz), (nt, 1))
    else:
        sg, tau = env.real('sigma', (nt, nz), 1e-7, 1e-5), env.real('tau', (nt, nz), 0.05, 1.0)
    TK = env.real('T', (nt, nz), 200.0, 310.0)
    put(m, 'sigma_180_vol', sg)
    put(m, 'tau', tau)
    put(m, 'T', TK, units='kelvin')
    return m, ins, b, od, sg, tau, TK, eta, sh


def cosp_atb(env):
    """attenuated total and cross-polarized backscatter and scattering ratio of the COSP emulation"""
    m, ins, b, od, sg, tau, TK, eta, sh = _cosp(env)
    conv, types, prec = env.param('conv', True), env.param('types', ['cl', 'ci', 'pl', 'pi']), env.param('precip', True)
    k = {} if env.param('all_types', True) else dict(hyd_types=list(types))
    if not prec:
        k['inc_precip_hyd_atb'] = False
    if env.param('coef'):
        a2, a1, i1 = env.param('coef')
        k['atb_cross_coeff'] = {'liq': [a2, a1, 0], 'ice': [i1, 0]}
    else:
        a2, a1, i1 = 0.4099, 0.009, 0.2904
    m = call(env, m, sh, env.emc2.simulator.classification.lidar_emulate_cosp_phase, ins, m, eta=eta,
             output_ATB=True, **k)
    S, TAU = sg[None], tau[None]
    inc = [t for t in types if prec or t in ('cl', 'ci')]
    bs, bc, os_ = {}, {}, {}
    for p in ('strat', 'conv')[:2 if conv else 1]:
        B = O = C = 0.0
        for g, ts in (('liq', ('cl', 'pl')), ('ice', [t for t in _all(types) if t not in ('cl', 'pl')])):
            bb, oo = np.zeros(sh), np.zeros(sh)
            for t in ts:
                if t in inc:
                    bb, oo = bb + b[p, t], oo + od[p, t]
            E = env.xp.exp(-2 * eta * oo)
            co = (S + bb) * TAU * E
            cr = (a2 * (co * 1e3) ** 2 + a1 * (co * 1e3)) / 1e3 if g == 'liq' else i1 * co
            C = C + cr / E / TAU - S * (0.0284 / 1.0284)
            B, O = B + bb, O + oo
        bs[p], bc[p], os_[p] = B, C, O
    if conv:
        for d in (bs, bc, os_):
            d['all_hyd'] = d['strat'] + d['conv']
    else:
        for d in (bs, bc, os_):
            d['all_hyd'] = d['strat']
    for p in bs:
        T2 = env.xp.exp(-2 * eta * os_[p]) * TAU
        tot = (bs[p] + bc[p] + S * 1.0284) * T2
        cr = (bc[p] + S * (0.0284 / 1.0284)) * T2
        tol = 1e-6
        env.check('attenuated total backscatter', env.close(env.values_of(m.ds['COSP_ATBtot_' + p]), tot, atol=1e-12,
                                                            rtol=tol))
        env.check('attenuated cross-polarized backscatter',
                  env.close(env.values_of(m.ds['COSP_ATBcross_' + p]), cr, atol=1e-12, rtol=tol))
        env.check('scattering ratio', env.close(env.values_of(m.ds['COSP_SR_' + p]) * S * 1.0284 * TAU,
                                                env.values_of(m.ds['COSP_ATBtot_' + p]), atol=1e-14, rtol=tol))


def cosp_mask(env):
    """phase mask of the COSP emulation from its scattering ratio and backscatter"""
    m, ins, b, od, sg, tau, TK, eta, sh = _cosp(env, fixed=True)
    N, nt, nz = sh
    conv, sfc, zero = env.param('conv', False), env.param('sfc', True), env.param('zero', '0')
    k = dict(OD_from_sfc=sfc)
    sr, un = env.param('sr'), env.param('un')
    if sr is not None:
        k.update(cloud_SR_thresh=sr, undef_SR_thresh=un)
    curve = env.param('curve')
    if curve:
        k['phase_disc_curve'] = curve
    m = call(env, m, sh, env.emc2.simulator.classification.lidar_emulate_cosp_phase, ins, m, eta=eta,
             output_ATB=True, convert_zeros_to_nan=zero == 'nan', **k)
    sr, un = sr or 5.0, un or 30.0
    curve = curve or [9.032e3, -2.136e3, 173.394, -3.951, 0.256, -9.478e-4]
    for p in COSP_KEYS if conv else ('strat', 'all_hyd'):
        SR = env.values_of(m.ds['COSP_SR_' + p])
        A, X = env.values_of(m.ds['COSP_ATBtot_' + p]), env.values_of(m.ds['COSP_ATBcross_' + p])
        pol = 0.0
        for c in curve:
            pol = pol * (A * 1e3) + c
        w = env.ite(SR > sr, env.ite(X > pol / 1e3, 2, 1), 0)
        w = env.ite(env.and_(w > 0, (TK > 273.15)[None]), 1, w)
        w = env.ite(env.and_(w > 0, (TK < 233.15)[None]), 2, w)
        strong = SR > un
        cols, seen = [None] * nz, None
        for z in range(nz) if sfc else range(nz - 1, -1, -1):
            cols[z] = w[:, :, z] if seen is None else env.ite(env.and_(w[:, :, z] > 0, seen), 3, w[:, :, z])
            seen = strong[:, :, z] if seen is None else env.or_(seen, strong[:, :, z])
        want = env.xp.stack(cols, axis=2)
        _masks(env, m, 'COSP_phase_mask_all_hyd' if p == 'all_hyd' else p + '_COSP_phase_mask', want, zero, sh)


def phase_ratio(env):
    """frequency and mass phase ratios"""
    N, nt, nz = sh = env.param('N', 2), env.param('nt', 1), env.param('nz', 2)
    conv, kind, types = env.param('conv', True), env.param('kind', 'freq'), env.param('types', ['cl', 'ci', 'pl', 'pi'])
    m = base_model(env, process_conv=conv)
    set_N(m, N)
    put(m, 'T', np.full((nt, nz), 270.0), units='kelvin')
    mask = env.int('mask', sh, 0, 3)
    zero = env.param('zero', '0')
    mk = env.ite(mask == 0, np.nan, 1.0 * mask) if zero == 'nan' else mask
    put(m, 'mask', mk, sub=True)
    q = {}
    for p in ('strat', 'conv'):
        for t in _all(types):
            put(m, p + '_frac_subcolumns_' + t, np.zeros(sh), sub=True)
            if kind == 'sub':
                q[p, t] = env.real('q_%s_%s' % (t, p), sh, 0.0, 1e-2)
                put(m, '%s_q_subcolumns_%s' % (p, t), q[p, t], sub=True)
    if kind == 'field':
        for t in _all(types):
            m.q_names_stratiform[t] = 'qs_' + t
            q[t] = env.real('q_' + t, (nt, nz), 0.0, 1e-2)
            put(m, 'qs_' + t, q[t])
    k = {} if env.param('all_types', True) else dict(hyd_types=list(types))
    fn = env.emc2.simulator.classification.calculate_phase_ratio
    if kind == 'freq':
        num, den = env.param('num', 1), env.param('den')
        m = call(env, m, sh, fn, m, 'mask', num, mask_allhyd=den, **k)
        nums = [num] if isinstance(num, int) else num
        dens = den if isinstance(den, list) else [1, 2, 3] if den is None else [den]

        def cnt(vals):
            s = 0
            for i in range(N):
                hit = env.or_(*[mask[i] == v for v in vals]) if len(vals) > 1 else mask[i] == vals[0]
                s = s + env.ite(hit, 1, 0)
            return s
        n, d = cnt(nums), cnt(dens)
        x = env.values_of(m.ds['mask_fpr'])
        env.check('shape', tuple(x.shape) == (nt, nz))
        env.check('missing exactly where no hydrometeor', env.isnan(x) == (d == 0))
        env.check('share of the subcolumns with hydrometeors', env.or_(d == 0, env.close(env.ite(d == 0, 0.0, x) * d, n)))
        if set(nums) <= set(dens):
            env.check('between zero and one', env.or_(d == 0, env.and_(env.le(0.0, env.ite(d == 0, 0.0, x)),
                                                                       env.le(env.ite(d == 0, 0.0, x), 1.0))))
    elif kind == 'sub':
        m = call(env, m, sh, fn, m, 'mask', 1, mass_pr=True, mpr_subcolmod=True, **k)
        liq = ice = np.zeros(sh)
        for p in ('strat', 'conv')[:2 if conv else 1]:
            for t in types:
                x = env.ite(mask > 0, q[p, t], 0.0)
                if t in ('cl', 'pl'):
                    liq = liq + x
                else:
                    ice = ice + x
        for nm, l, i in (('mask_mpr', liq, ice), ('mask_mpr_sum', liq.sum(axis=0), ice.sum(axis=0))):
            x = env.values_of(m.ds[nm])
            e = env.and_(l == 0, i == 0)
            env.check('missing exactly where no hydrometeor mass', env.isnan(x) == e)
            env.check('liquid share of the mass', env.or_(e, env.close(env.ite(e, 0.0, x) * (l + i), l)))
    else:
        m = call(env, m, sh, fn, m, 'mask', 1, mass_pr=True, **k)
        env.check('from the mixing ratio of the grid cells', 'mpr_q' in m.ds.variables)
        liq = ice = np.zeros((nt, nz))
        for t in types:
            if t in ('cl', 'pl'):
                liq = liq + q[t]
            else:
                ice = ice + q[t]
        x = env.values_of(m.ds['mpr_q'])
        e = env.and_(liq == 0, ice == 0)
        env.check('missing exactly where no hydrometeor mass', env.isnan(x) == e)
        env.check('liquid share of the mass', env.or_(e, env.close(env.ite(e, 0.0, x) * (liq + ice), liq)))


HARNESSES = dict(radar_phase=radar_phase, lidar_phase=lidar_phase, cosp_atb=cosp_atb, cosp_mask=cosp_mask,
                 phase_ratio=phase_ratio)


T, Q = dict(tiers=('thorough',)), {}
PROPERTIES = {
    'C30': dict(bounds='1..3 subcolumns, 1..2 times, 1..3 levels; every reflectivity in [-80, 40] dBZ or missing, detection '
                'limit in [-70, -10], cloud pattern, heights and height limits', configs=[
                    ('radar_phase', dict(), Q),
                    ('radar_phase', dict(N=3, nt=1, nz=3, rng=1, miss='strat'), Q),
                    ('radar_phase', dict(conv=False, rng=1, zero='nan', boolfrac=True), Q),
                    ('radar_phase', dict(zero='nan', rng=1, miss='conv', boolfrac=True), Q),
                    ('radar_phase', dict(N=1, nt=3, nz=2, conv=False), Q),
                    ('radar_phase', dict(N=4, nt=2, nz=3, rng=1), T)]),
    'C31': dict(bounds='1..2 subcolumns, 1..2 times, 1..2 levels, 1..3 classes with thresholds given at 2..3 depolarization '
                'ratios; every backscatter in [1e-9, 0.1], depolarization ratio in [-0.1, 1.2], optical depth in [0, 12] and '
                'threshold in [1e-8, 1e-2]', configs=[
                    ('lidar_phase', dict(), Q),
                    ('lidar_phase', dict(conv=False, zero='nan', default=True, nthr=3, ldr=[0.0, 1.0], inds=[3, 1, 2]), Q),
                    ('lidar_phase', dict(remove=False, nt=2, nz=1, N=1), Q),
                    ('lidar_phase', dict(zero='nan', nz=1, N=3, nthr=1, inds=[1], default=True), Q),
                    ('lidar_phase', dict(nthr=3, N=1), T)]),
    'C32': dict(bounds='1 subcolumn, 1..2 times, 1..3 levels; formulas: backscatter of up to 4 classes of stratiform and '
                'convective cloud in [0, 1e-3], optical depth in [0, 5], molecular scattering in [1e-7, 1e-5], transmittance '
                'in [0.05, 1]; masks: backscatter of one or two classes and temperature in [200, 310] K arbitrary', configs=[
                    ('cosp_atb', dict(nz=1, conv=False), Q),
                    ('cosp_atb', dict(nz=1, symb=['cl']), Q),
                    ('cosp_atb', dict(nz=1, symb=['pi', 'ci']), Q),
                    ('cosp_atb', dict(nz=1, symb=['pl', 'cl'], precip=False, miss='cl'), Q),
                    ('cosp_atb', dict(nz=2, symb=['ci'], types=['cl', 'ci'], all_types=False, miss='ci'), Q),
                    ('cosp_atb', dict(nz=1, symb=['sn', 'ci'], types=['cl', 'ci', 'pl', 'sn', 'gr'], all_types=False), Q),
                    ('cosp_atb', dict(nz=1, symb=['ci'], types=['cl', 'ci', 'pl', 'pir', 'pid'], all_types=False, precip=False), Q),
                    ('cosp_atb', dict(nz=1, conv=False, coef=[0.3, 0.02, 0.5], eta=1.0), Q),
                    ('cosp_mask', dict(symb=['ci'], nz=3, nt=2), Q),
                    ('cosp_mask', dict(symb=['ci'], nz=3, sfc=False, zero='nan'), Q),
                    ('cosp_mask', dict(symb=['cl'], nz=3, sr=3.0, un=12.0), Q),
                    ('cosp_mask', dict(symb=['cl', 'ci'], conv=True, nz=2), Q),
                    ('cosp_mask', dict(symb=['ci', 'pi'], conv=True, nz=3, sfc=False, curve=[0.1, 0.5, -1e-4]), Q),
                    ('cosp_mask', dict(symb=['ci'], conv=True, nz=4), T),
                    ('cosp_atb', dict(nz=2, symb=['pl', 'ci']), T)]),
    'C33': dict(bounds='2..3 subcolumns, 1..2 times, 1..2 levels; every mask of 4 values and every mixing ratio in [0, 0.01]',
                configs=[
                    ('phase_ratio', dict(), Q),
                    ('phase_ratio', dict(zero='nan', N=3, num=[1, 2], nz=1), Q),
                    ('phase_ratio', dict(N=3, nt=2, den=[1, 2], num=[1]), Q),
                    ('phase_ratio', dict(num=[2, 3], den=[3, 2, 1]), Q),
                    ('phase_ratio', dict(kind='sub', nt=2), Q),
                    ('phase_ratio', dict(kind='sub', types=['cl', 'ci'], all_types=False, conv=False, N=3), Q),
                    ('phase_ratio', dict(kind='sub', types=['cl', 'pi', 'pl'], all_types=False, N=1), Q),
                    ('phase_ratio', dict(kind='sub', types=['cl', 'ci', 'pl', 'sn', 'gr', 'ha'], all_types=False, conv=False), Q),
                    ('phase_ratio', dict(kind='field', types=['pl', 'cl', 'pir', 'ci', 'pid'], all_types=False), Q),
                    ('phase_ratio', dict(kind='field', nt=2), Q),
                    ('phase_ratio', dict(kind='field', types=['pl', 'pi', 'ci'], all_types=False), Q),
                    ('phase_ratio', dict(zero='nan', N=4), T)]),
}
