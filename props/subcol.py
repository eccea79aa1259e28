"""Subcolumn generator."""
import numpy as np
from .common import base_model, put, set_N, da, call

QT = 1e-18


def nearest(env, cnt, x):
    """cnt is a nearest integer of x"""
    return env.and_(env.le(cnt - x, 0.5, atol=1e-9), env.le(x - cnt, 0.5, atol=1e-9))


def conv_frac(env):
    """number and placement of the convective subcolumns"""
    N, nt, nz = env.param('N'), env.param('nt', 1), env.param('nz', 2)
    rad = env.param('rad', True)
    t = env.param('type', 'cl')
    m = base_model(env)
    if env.param('preset', True):
        set_N(m, N)
    frac = env.real('frac', (nt, nz), 0.0, 1.0)
    other = env.real('other', (nt, nz), 0.0, 1.0)
    q = env.real('q', (nt, nz), 0.0, 0.01)
    put(m, 'cfr_' + t, frac if rad else other)
    put(m, 'cf_' + t, other if rad else frac)
    put(m, 'qc_' + t, q)
    sub = env.emc2.simulator.subcolumn
    kw = {} if env.param('preset', True) and not env.param('pass_n') else dict(N_columns=N)
    if env.param('thresh'):
        kw['q_trunc_thresh'] = env.param('thresh')
    th = env.param('thresh', QT)
    m = call(env, m, (N, nt, nz), sub.set_convective_sub_col_frac, m, t, use_rad_logic=rad, **kw)
    d = m.ds['conv_frac_subcolumns_' + t]
    env.check('dimensions', tuple(d.dims) == ('subcolumn', m.time_dim, m.height_dim))
    out = env.values_of(d)
    env.check('shape', tuple(out.shape) == (N, nt, nz))
    env.observe('out', out)
    o = env.b(out)
    cnt = env.count(o, axis=0)
    ok = nearest(env, cnt, frac * N)
    env.check('count is the nearest integer to fraction x N', env.implies(q > th, ok) if rad else ok)
    if rad:
        env.check('no convection where the mixing ratio is below threshold', env.implies(q <= th, cnt == 0))
    for i in range(N - 1):
        env.check('filled from the first subcolumn', env.implies(o[i + 1], o[i]))
    env.check('number of subcolumns', m.num_subcolumns == N)


def strat_frac(env):
    """counts, convective avoidance, phase nesting and vertical overlap of stratiform cloud"""
    N, nt, nz = env.param('N'), env.param('nt', 1), env.param('nz', 3)
    rad, conv = env.param('rad', True), env.param('conv', True)
    par, chunk = env.param('parallel', False), env.param('chunk')
    what = env.param('what', 'all')
    m = base_model(env, process_conv=conv)
    if conv or env.param('preset', True):
        set_N(m, N)
    cv = None
    if conv:
        cc = env.bool('conv_cl', (N, nt, nz))
        put(m, 'conv_frac_subcolumns_cl', cc, sub=True)
        if env.param('conv_ci', True):
            ci_ = env.bool('conv_ci', (N, nt, nz))
        else:
            ci_ = np.zeros((N, nt, nz), dtype=bool)
        put(m, 'conv_frac_subcolumns_ci', ci_, sub=True)
        cv = env.or_(cc, ci_)
    n, fr = {}, {}
    for t in ('cl', 'ci'):
        fr[t] = env.real('frac_' + t, (nt, nz), 0.0, 1.0)
        oth = env.real('other_' + t, (nt, nz), 0.0, 1.0) if env.param('other') else np.full((nt, nz), 0.5)
        put(m, 'sfr_' + t, fr[t] if rad else oth)
        put(m, 'sf_' + t, oth if rad else fr[t])
    q = {}
    for t in ('cl', 'ci'):
        if env.param('q', False):
            q[t] = env.real('q_' + t, (nt, nz), 0.0, 0.01)
        else:
            q[t] = env.array(np.full((nt, nz), 1e-3))
        put(m, 'qs_' + t, q[t])
    sub = env.emc2.simulator.subcolumn
    m = call(env, m, (N, nt, nz), sub.set_stratiform_sub_col_frac, m, N_columns=N, use_rad_logic=rad, parallel=par,
                    chunk=chunk)
    out = {}
    for t in ('cl', 'ci'):
        d = m.ds['strat_frac_subcolumns_' + t]
        env.check('dimensions', tuple(d.dims) == ('subcolumn', m.time_dim, m.height_dim))
        out[t] = env.b(env.values_of(d))
        env.check('shape', tuple(out[t].shape) == (N, nt, nz))
        env.observe('out_' + t, out[t])
    for it in range(nt):
        for j in range(1 if env.param('bottom') else nz - 1):
            a, b = out['cl'][:, it, j], out['ci'][:, it, j]
            req = {}
            for t in ('cl', 'ci'):
                r = env.xp.round(fr[t][it, j] * N)
                req[t] = env.ite(q[t][it, j] > QT, r, 0.0) if rad else r
            na, nb = env.count(a), env.count(b)
            over = env.and_(req['cl'] == N, req['ci'] == N)
            if conv:
                free = N - env.count(cv[:, it, j])
            else:
                free = N
            if what in ('all', 'count'):
                env.check('liquid cloud count', na == env.ite(over, N, env.xp.minimum(req['cl'], free)))
                env.check('ice cloud count', nb == env.ite(over, N, env.xp.minimum(req['ci'], free)))
                env.check('the smaller phase lies inside the larger', env.or_(
                    env.all(env.implies(a, b)), env.all(env.implies(b, a))))
                if conv:
                    env.check('no stratiform cloud in convective subcolumns', env.or_(over, env.not_(env.any(
                        env.and_(cv[:, it, j], env.or_(a, b))))))
            if what in ('all', 'overlap'):
                ua, ub = out['cl'][:, it, j + 1], out['ci'][:, it, j + 1]
                if conv:
                    ncv = env.not_(cv[:, it, j])
                    ua, ub = env.and_(ua, ncv), env.and_(ub, ncv)
                u = env.or_(ua, ub)
                both = env.and_(ua, ub)
                for nm, s, c in (('liquid', a, na), ('ice', b, nb)):
                    env.check(nm + ' cloud continues below cloud', env.or_(over, env.count(
                        env.and_(s, u)) == env.xp.minimum(c, env.count(u))))
                    env.check(nm + ' cloud continues below mixed-phase cloud first', env.or_(over, env.count(
                        env.and_(s, both)) == env.xp.minimum(c, env.count(both))))


def precip_frac(env):
    N, nt, nz = env.param('N'), env.param('nt', 1), env.param('nz', 3)
    rad, conv = env.param('rad', True), env.param('conv', False)
    par, chunk = env.param('parallel', False), env.param('chunk')
    types = env.param('types', ['pl', 'pi'])
    what = env.param('what', 'all')
    m = base_model(env, types=['cl', 'ci'] + types)
    set_N(m, N)
    pre = 'conv' if conv else 'strat'
    cl = env.bool('cloud_cl', (N, nt, nz))
    ci = env.bool('cloud_ci', (N, nt, nz)) if env.param('ci', True) else np.zeros((N, nt, nz), dtype=bool)
    put(m, pre + '_frac_subcolumns_cl', cl, sub=True)
    put(m, pre + '_frac_subcolumns_ci', ci, sub=True)
    fr, q = {}, {}
    for t in types:
        fr[t] = env.real('frac_' + t, (nt, nz), 0.0, 1.0)
        q[t] = env.real('q_' + t, (nt, nz), 0.0, 0.01) if env.param('q') else env.array(np.full((nt, nz), 1e-3))
        p = 'c' if conv else 's'
        put(m, p + ('fr_' if rad else 'f_') + t, fr[t])
        put(m, 'q%s_%s' % (p, t), q[t])
        if t not in ('pl', 'pi'):
            for x, v in (('cf_', 0.41), ('cfr_', 0.63), ('sf_', 0.27), ('sfr_', 0.86), ('qc_', 3e-4), ('qs_', 7e-4)):
                if x + t not in m.ds.variables:
                    put(m, x + t, np.full((nt, nz), v))
    sub = env.emc2.simulator.subcolumn
    m = call(env, m, (N, nt, nz), sub.set_precip_sub_col_frac, m, conv, use_rad_logic=rad, parallel=par, chunk=chunk,
                    precip_types=list(types))
    out = {}
    for t in types:
        d = m.ds[pre + '_frac_subcolumns_' + t]
        env.check('dimensions', tuple(d.dims) == ('subcolumn', m.time_dim, m.height_dim))
        out[t] = env.b(env.values_of(d))
        env.observe('out_' + t, out[t])
    cloud = env.or_(cl, ci)
    for it in range(nt):
        for j in range(1 if env.param('bottom') else nz - 1):
            req, cnt = {}, {}
            for t in types:
                r = env.xp.round(fr[t][it, j] * N)
                req[t] = env.ite(q[t][it, j] > QT, r, 0.0) if rad else r
                cnt[t] = env.count(out[t][:, it, j])
                if what in ('all', 'count'):
                    env.check('precipitation count of ' + t, cnt[t] == req[t])
            if what in ('all', 'count'):
                for x in types:
                    for y in types:
                        if x < y:
                            env.check('precipitation classes overlap as much as possible', env.or_(
                                env.all(env.implies(out[x][:, it, j], out[y][:, it, j])),
                                env.all(env.implies(out[y][:, it, j], out[x][:, it, j]))))
            if what in ('all', 'order'):
                P = env.or_(*[out[t][:, it, j] for t in types])
                O = env.or_(*[out[t][:, it, j + 1] for t in types])
                C = cloud[:, it, j]
                nP, nO = env.count(P), env.count(O)
                env.check('precipitation falls below precipitation first',
                          env.count(env.and_(P, O)) == env.xp.minimum(nP, nO))
                Cn = env.and_(C, env.not_(O))
                rest = env.xp.maximum(nP - nO, 0)
                env.check('then below or in cloud', env.count(env.and_(P, Cn)) == env.xp.minimum(rest, env.count(Cn)))


def q_uniform(env):
    """mixing ratio and number in subcolumns without sub-grid variability"""
    N, nt, nz = env.param('N', 3), env.param('nt', 1), env.param('nz', 2)
    rad, conv, t = env.param('rad', True), env.param('conv', False), env.param('type', 'cl')
    m = base_model(env)
    set_N(m, N)
    s = env.bool('sub', (N, nt, nz))
    frac = env.real('frac', (nt, nz), 0.0, 1.0)
    q = env.real('q', (nt, nz), 0.0, 0.01)
    num = env.real('n', (nt, nz), 0.0, 1e9)
    pre = 'conv' if conv else 'strat'
    put(m, pre + '_frac_subcolumns_' + t, s, sub=True)
    p = 'c' if conv else 's'
    oth = env.real('other', (nt, nz), 0.01, 1.0)
    put(m, p + 'fr_' + t, frac if rad else oth)
    put(m, p + 'f_' + t, oth if rad else frac)
    put(m, 'q%s_%s' % (p, t), q)
    put(m, 'N_' + t, num)
    # what the subcolumn generator guarantees about its mask
    occ = env.any
    for it in range(nt):
        for j in range(nz):
            any_ = env.any(s[:, it, j])
            env.assume(env.implies(any_, frac[it, j] > 0))
            if rad:
                env.assume(env.implies(any_, q[it, j] > QT))
    sub = env.emc2.simulator.subcolumn
    m = call(env, m, (N, nt, nz), sub.set_q_n, m, t, is_conv=conv, qc_flag=env.param('qc_flag', False), use_rad_logic=rad,
                    parallel=env.param('parallel', False), chunk=env.param('chunk'))
    Q = env.values_of(m.ds[pre + '_q_subcolumns_' + t])
    env.check('shape', tuple(Q.shape) == (N, nt, nz))
    env.check('dimensions', tuple(m.ds[pre + '_q_subcolumns_' + t].dims) == ('subcolumn', 'time', 'height'))
    env.observe('Q', Q)
    sb = env.b(s)
    ic = env.xp.tile(q / frac, (N, 1, 1))
    act = env.and_(sb, env.xp.tile(q > QT, (N, 1, 1)))
    env.check('occupied subcolumns hold the in-cloud mean', env.implies(act, env.close(Q, ic)))
    env.check('empty subcolumns hold nothing', env.implies(env.not_(act), Q == 0))
    if not conv:
        NN = env.values_of(m.ds['strat_n_subcolumns_' + t])
        env.observe('NN', NN)
        env.check('occupied subcolumns hold the in-cloud number', env.implies(
            sb, env.close(NN, env.xp.tile(num / frac, (N, 1, 1)))))
        env.check('empty subcolumns hold no particles', env.implies(env.not_(sb), NN == 0))


def q_gamma(env):
    """sub-grid variability of cloud water"""
    N, nt, nz = env.param('N', 3), env.param('nt', 1), env.param('nz', 1)
    m = base_model(env)
    set_N(m, N)
    s = env.bool('sub', (N, nt, nz), split=True)
    frac = env.real('frac', (nt, nz), 0.0, 1.0)
    q = env.real('q', (nt, nz), 0.0, 0.01)
    num = env.real('n', (nt, nz), 0.0, 1e9)
    put(m, 'strat_frac_subcolumns_cl', s, sub=True)
    put(m, 'sf_cl', frac)
    put(m, 'sfr_cl', frac)
    put(m, 'qs_cl', q)
    put(m, 'N_cl', num)
    kw = {}
    if env.param('relvar'):
        m.strat_relvar_name = 'relvar'
        rvv = env.real('relvar', (nt, nz), 0.1, 20.0)
        put(m, 'relvar', rvv)
    elif env.param('irv'):
        kw['inv_rel_var'] = env.param('irv')
    for it in range(nt):
        for j in range(nz):
            env.assume(env.implies(env.any(s[:, it, j]), frac[it, j] > 0))
    if env.param('positive'):
        env.assume(env.all(q > 1e-12))
    sub = env.emc2.simulator.subcolumn
    m = call(env, m, (N, nt, nz), sub.set_q_n, m, 'cl', is_conv=False, qc_flag=True, use_rad_logic=False,
                    parallel=env.param('parallel', False), chunk=env.param('chunk'), **kw)
    Q = env.values_of(m.ds['strat_q_subcolumns_cl'])
    env.check('shape', tuple(Q.shape) == (N, nt, nz))
    env.observe('Q', Q)
    sb = env.b(s)
    env.check('no water outside cloud', env.implies(env.not_(sb), Q == 0))
    env.check('water is not negative', env.le(0.0, Q, atol=1e-15))
    for it in range(nt):
        for j in range(nz):
            c = env.count(sb[:, it, j])
            ic = env.ite(q[it, j] > QT, q[it, j] / frac[it, j], 0.0)
            tot = env.xp.sum(Q[:, it, j])
            env.check('the total equals in-cloud mean times occupied subcolumns', env.or_(
                c == 0, env.close(tot, ic * c, atol=1e-14)))
    if nt * nz == 1 and not env.param('parallel'):      # the draws belong to the only cell
        irv = 1.0 / rvv[0, 0] if env.param('relvar') else env.param('irv', 1.0)
        c, g = env.count(sb), []
        ic = env.ite(q[0, 0] > QT, q[0, 0] / frac[0, 0], 0.0)
        for shape, scale, v in env.gammas:
            env.check('drawn with the inverse relative variance', env.close(shape, irv))
            env.check('drawn about the in-cloud mean', env.close(shape * scale, ic))
            g = g + list(v)
        for k in range(1, N):       # the first k draws fit in the cell and leave a subcolumn
            if k < len(g) + 1:
                fit = env.and_(c > k, sum(g[:k]) < ic * c, env.xp.isfinite(ic))
                for i in range(k):
                    env.check('draws are kept as long as they fit', env.implies(fit, env.any(
                        env.and_(sb, env.close(Q, g[i] + 0.0 * Q)))))
    NN = env.values_of(m.ds['strat_n_subcolumns_cl'])
    env.check('number in cloud', env.implies(sb, env.close(NN, env.xp.tile(num / frac, (N, 1, 1)))))
    env.check('no particles outside cloud', env.implies(env.not_(sb), NN == 0))


def single(env):
    """the subcolumn generator switched off (one subcolumn)"""
    nt, nz = env.param('nt', 2), env.param('nz', 2)
    rad, conv = env.param('rad', True), env.param('conv', False)
    m = base_model(env, process_conv=True)
    sub = env.emc2.simulator.subcolumn
    th = env.param('thresh', QT)
    kw = {} if th == QT else dict(q_trunc_thresh=th)
    q, fr, num = {}, {}, {}
    set_N(m, 1)
    for t in ('cl', 'ci', 'pl', 'pi'):
        q[t] = env.real('q_' + t, (nt, nz), 0.0, 0.01)
        fr[t] = env.real('frac_' + t, (nt, nz), 0.0, 1.0)
        num[t] = env.real('num_' + t, (nt, nz), 0.0, 1e9)
        oth = np.full((nt, nz), 0.37)
        for p in ('c' if conv else 's',):
            put(m, 'q%s_%s' % (p, t), q[t])
            put(m, p + 'f_' + t, oth if rad else fr[t])
            put(m, p + 'fr_' + t, fr[t] if rad else oth)
        put(m, 'N_' + t, num[t])
        env.assume(env.implies(q[t] > th, fr[t] > 0))
    kr = dict(use_rad_logic=rad, **kw)
    for t in ('cl', 'ci'):
        m = call(env, m, (1, nt, nz), sub.set_convective_sub_col_frac, m, t, N_columns=1, **kr)
    pre = 'conv' if conv else 'strat'
    if not conv:
        m = call(env, m, (1, nt, nz), sub.set_stratiform_sub_col_frac, m, N_columns=1, parallel=False, **kr)
    m = call(env, m, (1, nt, nz), sub.set_precip_sub_col_frac, m, conv, N_columns=None, parallel=False, **kr)
    for t in ('cl', 'ci', 'pl', 'pi'):
        f = env.values_of(m.ds['%s_frac_subcolumns_%s' % (pre, t)])
        env.check('shape', tuple(f.shape) == (1, nt, nz))
        env.observe('f_' + t, f)
        env.check('occupied exactly where the mixing ratio exceeds the threshold',
                  env.or_(env.and_(env.b(f)[0], q[t] > th), env.and_(env.not_(env.b(f)[0]), q[t] <= th)))
        m = call(env, m, (1, nt, nz), sub.set_q_n, m, t, is_conv=conv, qc_flag=(t == 'cl' and not rad), parallel=False, **kr)
        Q = env.values_of(m.ds['%s_q_subcolumns_%s' % (pre, t)])
        env.observe('Q_' + t, Q)
        env.check('shape', tuple(Q.shape) == (1, nt, nz))
        env.check('the subcolumn holds the in-cloud mean', env.implies(q[t] > th, env.close(Q[0], q[t] / fr[t])))
        env.check('and nothing below the threshold', env.implies(q[t] <= th, Q[0] == 0))
        if not conv:
            NN = env.values_of(m.ds['strat_n_subcolumns_' + t])
            env.check('the subcolumn holds the in-cloud number', env.implies(
                q[t] > th, env.close(NN[0], num[t] / fr[t])))


HARNESSES = {'conv_frac': conv_frac, 'strat_frac': strat_frac, 'precip_frac': precip_frac, 'q_uniform': q_uniform,
             'q_gamma': q_gamma,
             'single': single}

Q, T = {}, ('thorough',)
S3 = dict(bounds='strat')


def _sc(what):
    return [
        ('strat_frac', dict(N=3, nz=2, what=what, q=True, other=True), {}),
        ('strat_frac', dict(N=3, nz=3, what=what, conv_ci=False, bottom=True), {}),
        ('strat_frac', dict(N=4, nz=3, what=what, conv=False, rad=False, bottom=True), {}),
        ('strat_frac', dict(N=2, nz=2, nt=2, what=what, conv=False, parallel=True, chunk=1), {}),
        ('strat_frac', dict(N=3, nz=2, nt=1, what=what, conv=False, parallel=True), {}),
        ('strat_frac', dict(N=2, nz=2, what=what, conv=False, preset=False), {}),
    ]


def _st(what):
    return [
        ('strat_frac', dict(N=4, nz=3, what=what, conv_ci=False, bottom=True), dict(tiers=T)),
        ('strat_frac', dict(N=5, nz=3, what=what, conv=False, bottom=True), dict(tiers=T)),
        ('strat_frac', dict(N=3, nz=4, what=what, conv=False), dict(tiers=T)),
    ]


def _pc(what):
    return [
        ('precip_frac', dict(N=3, nz=2, what=what, q=True), {}),
        ('precip_frac', dict(N=3, nz=3, what=what, ci=False, bottom=True), {}),
        ('precip_frac', dict(N=4, nz=2, what=what, rad=False, ci=False), {}),
        ('precip_frac', dict(N=3, nz=2, what=what, conv=True, ci=False, q=True), {}),
        ('precip_frac', dict(N=2, nz=2, what=what, types=['pl', 'pi', 'gr'], ci=False), {}),
        ('precip_frac', dict(N=2, nz=2, nt=2, what=what, ci=False, parallel=True, chunk=1), {}),
    ]


def _pt(what):
    return [
        ('precip_frac', dict(N=4, nz=3, what=what, ci=False, bottom=True), dict(tiers=T)),
        ('precip_frac', dict(N=2, nz=3, what=what, types=['pl', 'pi', 'gr'], ci=False, bottom=True), dict(tiers=T)),
        ('precip_frac', dict(N=3, nz=3, what=what, types=['pl', 'pi', 'gr'], ci=False, bottom=True),
         dict(tiers=T)),
        ('precip_frac', dict(N=5, nz=2, what=what, ci=False), dict(tiers=T)),
    ]


PROPERTIES = {
    'C01': dict(
        bounds='2..5 subcolumns, 1..3 times, 1..2 levels; fractions in [0,1], mixing ratios in [0, 0.01]; four classes',
        configs=[('conv_frac', dict(N=n, rad=r, type=t, nt=nt), {}) for n, r, t, nt in (
            (2, True, 'cl', 2), (3, True, 'ci', 1), (4, True, 'pl', 1), (3, False, 'cl', 2), (4, False, 'pi', 1),
            (5, True, 'cl', 1), (5, False, 'ci', 1))] +
        [('conv_frac', dict(N=2, nt=3, nz=1, rad=False), {}), ('conv_frac', dict(N=3, nt=3, nz=2, rad=False, type='pl'), {}),
         ('conv_frac', dict(N=3, preset=False), {}), ('conv_frac', dict(N=3, pass_n=True, rad=False), {}),
         ('conv_frac', dict(N=3, thresh=1e-6), {})] +
        [('conv_frac', dict(N=n, rad=r, nt=2, nz=3), ('thorough',)) for n in (6, 8, 10) for r in (True, False)]),
    'C02': dict(bounds='2..4 subcolumns (5 in the thorough tier), 2..3 levels (4), 1..2 times, every fraction in [0,1], every '
                'pattern of convective subcolumns, every outcome of the random permutations',
                configs=_sc('count') + _st('count')),
    'C03': dict(bounds='as C02', configs=_sc('overlap') + _st('overlap')),
    'C04': dict(bounds='2..4 subcolumns (5 thorough), 2..3 levels, 1..2 times, two or three precipitation classes, every '
                'fraction in [0,1], every cloud pattern, every outcome of the random permutations',
                configs=_pc('count') + _pt('count')),
    'C05': dict(bounds='as C04', configs=_pc('order') + _pt('order')),
    'C06': dict(bounds='3..4 subcolumns, 1..2 times, 2 levels; any occupancy pattern with a positive fraction; all four '
                'classes, convective and stratiform, both cloud-fraction logics',
                configs=[('q_uniform', dict(N=3, rad=r, conv=cv, type=t), {}) for r in (True, False)
                         for cv in (True, False) for t in ('cl', 'pi')] +
                [('q_uniform', dict(N=4, nt=2, type='ci'), {}),
                 ('q_uniform', dict(N=3, qc_flag=True, rad=True), {}),
                 ('q_uniform', dict(N=3, qc_flag=True, conv=True, rad=False), {})]),
    'C07': dict(bounds='2..4 subcolumns, 1..3 times, 1..2 levels; every occupancy pattern, mixing ratio in [0,0.01], and '
                'every outcome of the gamma draws and permutations; chunk sizes 1..3',
                configs=[('q_gamma', dict(N=3), {}), ('q_gamma', dict(N=4, positive=True), {}),
                         ('q_gamma', dict(N=2, nz=2), {}),
                         ('q_gamma', dict(N=2, relvar=True), {}), ('q_gamma', dict(N=2, irv=0.5), {}),
                         ('q_gamma', dict(N=2, nt=2, parallel=True), {}),
                         ('q_gamma', dict(N=2, nt=3, parallel=True, chunk=2, positive=True), {}),
                         ('q_gamma', dict(N=2, nt=2, parallel=True, chunk=1), {}),
                         ('q_gamma', dict(N=5, positive=True), dict(tiers=T))]),
    'C08': dict(bounds='1 subcolumn, 2 times, 2 levels',
                configs=[('single', dict(rad=r, conv=c), {}) for r in (True, False) for c in (True, False)] +
                [('single', dict(thresh=1e-5), {})]),
}
