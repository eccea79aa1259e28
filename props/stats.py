"""Statistical aggregation: regridding, scattering ratio, cloud fraction and frequency by altitude."""
import numpy as np
import xarray as xr
from .common import base_model, set_N, da, put

UNDEF, GROUND = -1e30, -1e20


def _edges(env, nt, nl):
    """half levels (bottoms) and full levels of the model grid, increasing, in km"""
    b0 = env.real('b0', (nt,), -0.2, 3.0)
    d = env.real('dl', (nt, nl), 0.05, 2.0)
    bot = [[None] * nl for _ in range(nt)]
    for i in range(nt):
        s = b0[i]
        for l in range(nl):
            bot[i][l] = s
            s = s + d[i, l]
    bot = env.array(bot)
    full = bot + d * 0.5
    return bot, bot + d, full


def _newgrid(env, ng):
    if env.param('fixed_new'):
        top = np.array(env.param('fixed_new'), dtype=float)
        bot = np.concatenate([[0.0], top[:-1]])
        return bot, top
    g0 = env.real('g0', (), 0.0, 2.0)
    d = env.real('dg', (ng,), 0.05, 2.0)
    e = [g0]
    for k in range(ng):
        e.append(e[-1] + d[k])
    return env.array(e[:-1]), env.array(e[1:])


def _apart(env, a, b):
    """edges that coincide up to rounding are left out"""
    eps = 1e-6 if env.symbolic else 9e-7
    env.assume(env.or_(a - b >= eps, b - a >= eps))


def _overlap(env, b1, t1, b2, t2):
    lo = b1 if b1 > b2 else b2
    hi = t1 if t1 < t2 else t2
    _apart(env, hi, lo)
    return hi - lo if hi > lo else None


def regrid(env):
    """layer means on a new vertical grid"""
    nt, N, nl, ng = env.param('nt', 1), env.param('N', 1), env.param('nl', 3), env.param('ng', 2)
    log = env.param('log', False)
    if env.param('fixed_old'):
        e = np.array(env.param('fixed_old'), dtype=float)
        bot, top = np.tile(e[:-1], (nt, 1)), np.tile(e[1:], (nt, 1))
        full = (bot + top) / 2
    else:
        bot, top, full = _edges(env, nt, nl)
    nb, ntp = _newgrid(env, ng)
    y = env.real('y', (nt, N, nl), -75.0 if log else -30.0, 30.0) if not log or env.param('fixed_old') else np.linspace(-20.0, 25.0, nt * N * nl).reshape(nt, N, nl)
    if log and env.param('fixed_old'):
        y = env.ite(env.bool('gone', (nt, N, nl), split=True), UNDEF, y)
    elif log and env.param('miss', True):
        y = y.copy()
        y[:, 0, 1] = UNDEF
    fn = env.emc2.statistics_LLNL.statistical_aggregation.COSP_CHANGE_VERTICAL_GRID
    r = env.returns('runs', fn, nt, N, nl, full, bot, y, ng, nb, ntp, lunits=log)
    env.check('shape', tuple(r.shape) == (nt, N, ng))
    env.observe('r', r + 1000.0 if log else r)
    for i in range(nt):
        for k in range(ng):
            w = [_overlap(env, bot[i, l], top[i, l], nb[k], ntp[k]) for l in range(nl)]
            sel = [l for l in range(nl) if w[l] is not None]
            W = sum(w[l] for l in sel)
            for j in range(N):
                x = r[i, j, k]
                _apart(env, ntp[k], bot[i, 0])
                if ntp[k] <= bot[i, 0]:
                    env.check('flag below the ground', x == GROUND)
                elif not sel:
                    env.check('missing above the model top', x == UNDEF)
                elif log:
                    sel1 = [l for l in sel if y[i, j, l] > UNDEF]
                    if sel1:
                        s = sum(w[l] * 10.0 ** (y[i, j, l] / 10) for l in sel1)
                        env.check('mean of the layers weighted by overlap', env.close(10.0 ** (x / 10) * W, s))
                    else:
                        env.check('missing without signal', x == UNDEF)
                else:
                    s = sum(w[l] * y[i, j, l] for l in sel)
                    env.check('mean of the layers weighted by overlap', env.close(x * W, s, atol=1e-9))


def signals(env):
    """attenuated signals and heights taken from the model"""
    N, nt, nl, nc = env.param('N', 2), env.param('nt', 2), env.param('nl', 3), env.param('nc', 2)
    m = base_model(env)
    d4, d3 = ('subcolumn', 'time', 'lev', 'ncol'), ('time', 'lev', 'ncol')
    bt = env.real('beta', (N, nt, nl, nc), 0.0, 1.0)
    bt = env.ite(env.bool('nobeta', (N, nt, nl, nc)), np.nan, bt)
    ze = env.real('ze', (N, nt, nl, nc), -60.0, 40.0)
    sg, tau = env.real('sg', (nt, nl, nc), 1e-9, 1e-4), env.real('tau', (nt, nl, nc), 0.0, 1.0)
    z = env.xp.cumsum(env.real('dz', (nt, nl, nc), 1.0, 3000.0), axis=1)
    m.ds['sub_col_beta_att_tot'] = da(bt, d4)
    m.ds['sub_col_Ze_att_tot'] = da(ze, d4)
    m.ds['sigma_180_vol'], m.ds['tau'], m.ds['Z3'] = da(sg, d3), da(tau, d3), da(z, d3)
    for n, k in (('subcolumn', N), ('time', nt), ('lev', nl), ('ncol', nc)):
        m.ds[n] = xr.DataArray(np.arange(k), dims=n)
    atb, mol, zf, zh, zea = env.returns('runs', env.emc2.statistics_LLNL.statistical_aggregation.get_radar_lidar_signals, m)
    env.check('backscatter', env.close(atb, bt))
    env.check('molecular backscatter', env.close(mol, (sg * tau)[None] + np.zeros((N, 1, 1, 1))))
    env.check('reflectivity', env.close(zea, ze))
    env.check('height in km', env.close(zf, z / 1000.0))
    env.check('bottoms of the layers lie between the levels', env.and_(
        env.close(zh[:, 1:], (z[:, 1:] + z[:, :-1]) / 2000.0), env.close(zh[:, 0], (1.5 * z[:, 0] - 0.5 * z[:, 1]) / 1000.0, atol=1e-9)))


def ratio(env):
    """regridded scattering ratio and reflectivity on the new grid"""
    nt, N, nl, nc = env.param('nt', 1), env.param('N', 2), env.param('nl', 2), env.param('nc', 1)
    new = np.array([0.0, 0.6, 1.1, 2.0, 3.1])
    nb, ntp = new[:-1], new[1:]
    ng = len(nb)
    zh = np.zeros((nt, nl, nc))
    zf = np.zeros((nt, nl, nc))
    for c in range(nc):
        for i in range(nt):
            e = 0.7 + 0.1 * i + 0.2 * c + np.concatenate([[0.0], np.cumsum([0.7, 0.9, 1.0][:nl])])
            zh[i, :, c], zf[i, :, c] = e[:-1], (e[1:] + e[:-1]) / 2
    tot = env.real('tot', (N, nt, nl, nc), 0.0, 1e-2)
    gone = env.bool('gone', (N, nt, nl, nc), split=True)
    mol = env.real('mol', (nt, nl, nc), 1e-8, 1e-4)
    gonem = env.bool('gonem', (nt, nl, nc), split=True) if env.param('gonem') else np.zeros((nt, nl, nc), dtype=bool)
    S = env.emc2.statistics_LLNL.statistical_aggregation
    totm = env.ite(gone, np.nan, tot)
    if env.param('radar'):
        r = env.returns('runs', S.get_regridded_ze_att_tot, totm, zf, zh, N, nt, ng, nc, nb, ntp, N, nt, nl)
    else:
        mol4 = env.xp.tile(env.ite(gonem, np.nan, mol)[None], (N, 1, 1, 1)) if hasattr(env.xp, 'tile') else mol
        r = env.returns('runs', S.calculate_SR, totm, mol4, N, nt, zf, zh, N, nt, nl, ng, nc, nb, ntp)
    env.check('shape', tuple(r.shape) == (N, nt, ng, nc))
    env.observe('r', r)
    for c in range(nc):
        for i in range(nt):
            top = np.append(zh[i, 1:, c], 2 * zf[i, -1, c] - zh[i, -1, c])
            for k in range(ng):
                w = np.clip(np.minimum(top, ntp[k]) - np.maximum(zh[i, :, c], nb[k]), 0, None)
                sel = [l for l in range(nl) if w[l] > 1e-9]
                for s in range(N):
                    x = r[s, i, k, c]
                    miss = env.or_(*[env.or_(gone[s, i, l, c], gonem[i, l, c]) for l in sel]) if len(sel) > 1 else \
                        env.or_(gone[s, i, sel[0], c], gonem[i, sel[0], c]) if sel else True
                    env.check('missing exactly where there is no complete signal', env.isnan(x) == miss)
                    if not sel:
                        continue
                    a = sum(w[l] * tot[s, i, l, c] for l in sel)
                    b = sum(w[l] * mol[i, l, c] for l in sel) if not env.param('radar') else sum(w[l] for l in sel)
                    env.check('mean total over mean molecular backscatter' if not env.param('radar') else 'mean',
                              env.or_(miss, env.close(env.ite(miss, 0.0, x) * b, a, rtol=1e-6, atol=1e-15)))


def cloud_fraction(env):
    """lidar cloud fraction of the scattering ratios"""
    N, nt, ng, nc = sh = env.param('N', 3), env.param('nt', 1), env.param('ng', 2), env.param('nc', 1)
    sr = env.real('sr', sh, -1.0, 100.0)
    sr = env.ite(env.bool('gone', sh), np.nan, sr)
    S = env.emc2.statistics_LLNL.statistical_aggregation
    x = env.returns('runs', S.calculate_lidar_CF, sr, nt, ng, nc)
    env.check('shape', tuple(x.shape) == (nt, ng, nc))
    n = d = 0
    for s in range(N):
        v = env.ite(env.isnan(sr[s]), -1.0, sr[s])
        n, d = n + env.ite(v > 5.0, 1, 0), d + env.ite(v > 0.01, 1, 0)
    env.check('missing where all are extinct', env.isnan(x) == (d == 0))
    e = d == 0
    xs = env.ite(e, 0.0, x)
    env.check('cloudy share of the subcolumns with signal', env.or_(e, env.close(xs * d, 1.0 * n)))
    env.check('between zero and one', env.and_(env.le(0.0, xs), env.le(xs, 1.0)))


def cfad(env):
    """frequency by altitude diagram"""
    N, nt, ng, nc = sh = env.param('N', 2), env.param('nt', 2), env.param('ng', 1), env.param('nc', 2)
    col = env.param('col', 1)
    edges = np.array(env.param('edges', [-1.0, 0.5, 3.0, 40.0]))
    x = env.real('x', sh, -5.0, 60.0)
    x = env.ite(env.bool('gone', sh), np.nan, x)
    S = env.emc2.statistics_LLNL.statistical_aggregation
    fn = S.get_cfaddBZ if env.param('radar') else S.get_cfad_SR
    mid = np.arange(ng) + 0.5
    r = env.returns('runs', fn, edges, mid, nt, N, x, col)
    nb = len(edges) - 1
    env.check('shape', tuple(r.shape) == (ng, nb))
    for k in range(ng):
        for j in range(nb):
            c = 0
            for s in range(N):
                for t in range(nt):
                    v = x[s, t, k, col]
                    g = env.isnan(v)
                    v = env.ite(g, -99.0, v)
                    c = c + env.ite(env.and_(v >= edges[j], v < edges[j + 1]), 1, 0)
            env.check('share of the subcolumns and times in the bin', env.close(r[k, j] * (N * nt), 1.0 * c))
        env.check('shares add up to at most one', env.le(sum(r[k, j] for j in range(nb)), 1.0))


HARNESSES = dict(regrid=regrid, signals=signals, scattering_ratio=ratio, lidar_cf=cloud_fraction, cfad=cfad)

T, Q = dict(tiers=('thorough',)), {}
PROPERTIES = {
    'C34': dict(bounds='2..3 model levels of thickness 0.05..2 km above a ground at -0.2..3 km and 1..3 new levels, both with '
                'arbitrary heights (or the new ones at given heights), 1..2 subcolumns and times; every profile in [-30, 30]; '
                'edges of the two grids at least 1 mm apart; '
                'profiles in dB in [-75, 30], any layer missing, for given grids, and for one given set of values with arbitrary grids', configs=[
                    ('regrid', dict(nl=2, ng=1), Q),
                    ('regrid', dict(nl=2, ng=1, N=2), Q),
                    ('regrid', dict(nl=2, ng=2), Q),
                    ('regrid', dict(nl=3, ng=2, fixed_new=[1.0, 2.0]), Q),
                    ('regrid', dict(nl=2, ng=3, fixed_new=[0.7, 1.5, 3.0]), Q),
                    ('regrid', dict(nl=2, ng=1, nt=2, fixed_new=[3.0]), Q),
                    ('regrid', dict(nl=2, ng=1, nt=2, fixed_new=[0.9]), Q),
                    ('regrid', dict(nl=3, log=True, fixed_old=[0.2, 0.9, 1.7, 2.4], fixed_new=[0.1, 0.6, 1.4, 2.1, 3.0], ng=5), Q),
                    ('regrid', dict(nl=2, log=True, N=2, fixed_old=[0.2, 0.9, 1.7], fixed_new=[1.4, 2.1], ng=2), Q),
                    ('regrid', dict(nl=2, ng=1, log=True), Q),
                    ('regrid', dict(nl=2, ng=1, log=True, miss=False, N=2), Q),
                    ('regrid', dict(nl=3, ng=3, fixed_new=[1.0, 2.0, 3.0]), T),
                    ('regrid', dict(nl=2, ng=2, nt=2, fixed_new=[1.0, 2.0]), T),
                    ('regrid', dict(nl=3, ng=1, log=True, fixed_new=[2.0]), T),
                    ('regrid', dict(nl=3, ng=2), T)]),
    'C35': dict(bounds='1..2 subcolumns, times and columns, 2..3 levels; every backscatter in [0, 0.01], molecular backscatter '
                'in [1e-8, 1e-4], reflectivity, height and pattern of missing values; new levels below, across, inside and '
                'above the model levels', configs=[
                    ('signals', dict(), Q),
                    ('signals', dict(N=1, nt=3, nl=4, nc=1), Q),
                    ('scattering_ratio', dict(), Q),
                    ('scattering_ratio', dict(gonem=True), Q),
                    ('scattering_ratio', dict(nt=2, N=1), Q),
                    ('scattering_ratio', dict(nc=2, N=1, nl=3), Q),
                    ('scattering_ratio', dict(radar=True), Q),
                    ('scattering_ratio', dict(radar=True, nc=2, N=1, nl=3), Q),
                    ('scattering_ratio', dict(N=2, nt=2, nl=2), T)]),
    'C36': dict(bounds='1..4 subcolumns, 1..2 times, levels and columns; every scattering ratio or reflectivity, or none',
                configs=[
                    ('lidar_cf', dict(), Q),
                    ('lidar_cf', dict(N=2, nt=2, ng=1, nc=2), Q),
                    ('lidar_cf', dict(N=4, ng=1), Q),
                    ('cfad', dict(), Q),
                    ('cfad', dict(radar=True, ng=2, col=0), Q),
                    ('cfad', dict(N=3, nt=1, edges=[-1.0, 0.01, 1.2, 3.0, 5.0]), Q),
                    ('cfad', dict(radar=True, N=3, nt=3, nc=1, col=0), T)]),
}
