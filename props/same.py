"""Invariances of the forward calculations: history, order of classes, processing schedule and units."""
import copy
import numpy as np
import xarray as xr
from .common import base_model, put, set_N, instrument, grid, mie, bulk_re, decoys

FACTOR = {'Pa': ('p', 100.0, 0.0), 'hPa': ('p', 1.0, 0.0), 'kelvin': ('T', 1.0, 0.0), 'degC': ('T', 1.0, -273.15),
          'degF': ('T', 1.8, -459.67), 'meter': ('z', 1.0, 0.0), 'km': ('z', 1e-3, 0.0), 'kPa': ('p', 0.1, 0.0),
          'K': ('T', 1.0, 0.0), 'm': ('z', 1.0, 0.0)}


def build(env, kind, logic, types, sh, conv=False):
    N, nt, nz = sh
    pre = 'conv' if conv else 'strat'
    m = base_model(env, rad='ModelE')
    set_N(m, N)
    ins = instrument(env, kind)
    P, TK, Z, qv = grid(env, m, nt, nz, symbolic=env.param('sym', []))
    for t in types:
        occ = env.bool('occ_' + t, sh, split=True)
        q = env.real('q_' + t, sh, 1e-13, 1e-2)
        n = env.real('n_' + t, sh, 1.0, 100.0) if logic == 'micro' else np.full(sh, 20.0)
        put(m, pre + '_q_subcolumns_' + t, env.ite(occ, q, 0.0), sub=True)
        put(m, pre + '_n_subcolumns_' + t, env.ite(occ, n, 0.0), sub=True)
        put(m, pre + '_frac_subcolumns_' + t, env.ite(occ, 1.0, 0.0), sub=True)
        put(m, ('re_c_' if conv else 're_s_') + t, env.real('re_' + t, (nt, nz), 26.0, 45.0) if logic == 'bulk'
            else np.full((nt, nz), 30.0))
    for t in ('cl', 'pl', 'ci', 'pi'):
        mie(env, ins, t, sym=False, nd=2)
    mie(env, ins, 'E3_ice', table='scat', sym=False, nd=2, diam='p_diam_eq_V')
    for n in ('E3_liq', 'E3_ice', 'mie_ice_E3_PSD'):
        bulk_re(env, ins, n, sym=False)
    rho = np.tile(np.linspace(1.1, 0.7, nz), (nt, 1)) * (1.0 + 0.05 * np.arange(nt)[:, None])
    put(m, 'rho_a', rho)
    m.Vd_rhoa_scaling_ref = {'ci': 0.8, 'pl': 1.2}
    decoys(env, m, N, nt, nz)
    return m, ins


def clone(env, m):
    """an independent copy of a model"""
    c = copy.copy(m)
    c.ds = xr.Dataset()
    for n in m.ds.variables:
        v = m.ds[n]
        c.ds[n] = xr.DataArray(env.xp.array(env.values_of(v), copy=True), dims=v.dims, attrs=dict(v.attrs))
    for k, v in list(vars(c).items()):
        if isinstance(v, dict):
            setattr(c, k, dict(v))
        elif isinstance(v, list):
            setattr(c, k, list(v))
    return c


def call(env, fn, ins, m, conv, logic, types, **kw):
    kw.setdefault('parallel', False)
    return env.returns('runs', fn, ins, m, conv, OD_from_sfc=env.param('sfc', True),
                       use_rad_logic=logic == 'bulk', use_empiric_calc=logic == 'emp', hyd_types=list(types),
                       **dict(dict(calc_dispersion=env.param('disp', False)) if logic == 'micro' else {}, **kw))


def outputs(m, old):
    return sorted(n for n in m.ds.variables if n not in old and n not in ('N_0', 'lambda', 'mu'))


def same(env):
    """two ways of running the same calculation agree"""
    kind, logic, how = env.param('kind', 'radar'), env.param('logic', 'emp'), env.param('how')
    types, conv = env.param('types', ['cl', 'ci']), env.param('conv', False)
    sh = (env.param('N', 1), env.param('nt', 1), env.param('nz', 2))
    m, ins = build(env, kind, logic, types, sh, conv)
    old = set(m.ds.variables)
    S = env.emc2.simulator
    fn = S.radar_moments.calc_radar_moments if kind == 'radar' else S.lidar_moments.calc_lidar_moments
    a, b = clone(env, m), clone(env, m)
    atol = env.param('atol', 0.0)
    w = dict(calc_spectral_width=False) if env.param('width') is False else {}
    a = call(env, fn, ins, a, conv, logic, types, **w)
    if how == 'repeat':
        b = call(env, fn, ins, b, conv, logic, types)
        b = call(env, fn, ins, b, conv, logic, types, **w)
    elif how == 'order':
        b = call(env, fn, ins, b, conv, logic, types[::-1])
    elif how == 'schedule':
        b = call(env, fn, ins, b, conv, logic, types, parallel=True, chunk=env.param('chunk'))
    elif how == 'after':
        # the other calculation was made with the same model before
        first = env.param('first')
        if env.param('first_kind', kind) != kind:
            ins0 = instrument(env, env.param('first_kind'))
            ins0.mie_table, ins0.scat_table, ins0.bulk_table = ins.mie_table, ins.scat_table, ins.bulk_table
            ins0.instrument_str = 'OTH'
        else:
            ins0 = ins
        fn0 = S.radar_moments.calc_radar_moments if env.param('first_kind', kind) == 'radar' else \
            S.lidar_moments.calc_lidar_moments
        b = call(env, fn0, ins0, b, env.param('first_conv', conv), first, env.param('first_types', types))
        b = call(env, fn, ins, b, conv, logic, types)
    elif how == 'units':
        for u in env.param('units'):
            n, f, o = FACTOR[u]
            b.ds[n] = xr.DataArray(env.values_of(m.ds[n]) * f + o, dims=m.ds[n].dims, attrs=dict(units=u))
        b = call(env, fn, ins, b, conv, logic, types)
    else:
        raise ValueError(how)
    for n in outputs(a, old):
        env.check('same fields', n in b.ds.variables)
        x, y = env.values_of(a.ds[n]), env.values_of(b.ds[n])
        env.check('same dimensions', tuple(a.ds[n].dims) == tuple(b.ds[n].dims) and tuple(x.shape) == tuple(y.shape))
        env.check('same values', env.close(x, y, atol=atol))


def columns(env):
    """every column is calculated on its own: subsets of times and subcolumns give the same values"""
    kind, logic = env.param('kind', 'radar'), env.param('logic', 'emp')
    types, conv = env.param('types', ['cl', 'ci']), env.param('conv', False)
    N, nt, nz = env.param('N', 2), env.param('nt', 2), env.param('nz', 2)
    m, ins = build(env, kind, logic, types, (N, nt, nz), conv)
    old = set(m.ds.variables)
    S = env.emc2.simulator
    fn = S.radar_moments.calc_radar_moments if kind == 'radar' else S.lidar_moments.calc_lidar_moments
    it, i = env.param('it', 1), env.param('i', 1)
    b = clone(env, m)
    ds = xr.Dataset()
    for n in m.ds.variables:
        v = m.ds[n]
        x = env.values_of(v)
        if v.dims == ('subcolumn',):
            x = np.arange(0, 1)
        elif v.dims == (m.time_dim, m.height_dim):
            x = x[it:it + 1]
        else:
            x = x[i:i + 1, it:it + 1]
        ds[n] = xr.DataArray(x, dims=v.dims, attrs=dict(v.attrs))
    b.ds = ds
    a = call(env, fn, ins, clone(env, m), conv, logic, types)
    b = call(env, fn, ins, b, conv, logic, types)
    for n in outputs(a, old):
        env.check('same fields', n in b.ds.variables)
        x, y = env.values_of(a.ds[n]), env.values_of(b.ds[n])
        x = x[i:i + 1, it:it + 1] if len(x.shape) == 3 else (x[it:it + 1] if len(x.shape) == 2 else x)
        if n.startswith(('sub_col_Vd_', 'sub_col_sigma_d_')) and 'tot' not in n:
            # a class has no velocity where it is absent; 0 and missing both stand for that
            x, y = env.ite(x == 0, np.nan, x), env.ite(y == 0, np.nan, y)
        env.check('same values', env.close(x, y))


HARNESSES = {'same': same, 'columns': columns}

T = ('thorough',)
R, L = dict(kind='radar'), dict(kind='lidar')


def c(h, k, logic, tiers=None, **p):
    return (h, dict(kind=k, logic=logic, **p), dict(tiers=tiers) if tiers else {})


def grid_of(how, **p):
    """configurations for each instrument and approach"""
    out = []
    for k in ('radar', 'lidar'):
        for lg, nz in (('emp', 2), ('bulk', 2), ('micro', 1)):
            out.append(c('same', k, lg, how=how, nz=nz, **p))
    return out


U = [['Pa', 'degC', 'km'], ['kPa', 'degF']]
B = 'three classes at most, 1..3 subcolumns, 1..3 times, 1..2 levels; every occupancy pattern, mixing ratio in [1e-6, 0.01], ' \
    'number in [1, 100] per cm3 (microphysics), effective radius in [26, 45] (bulk)'
PROPERTIES = {
    'C24': dict(bounds=B + '; two orders of two or three classes', configs=grid_of('order') + [
        c('same', 'radar', 'emp', how='order', types=['cl', 'pl'], conv=True),
        c('same', 'lidar', 'bulk', how='order', types=['cl', 'pl', 'ci'], nz=1),
        c('same', 'radar', 'micro', how='order', nz=2), c('same', 'lidar', 'micro', how='order', types=['pl', 'cl'], nz=2),
        c('same', 'radar', 'micro', how='order', types=['pl', 'pi'], nz=1), c('same', 'radar', 'bulk', how='order', types=['cl', 'pl']),
        c('same', 'lidar', 'bulk', how='order', types=['pl', 'cl']), c('same', 'lidar', 'emp', how='order', types=['pi', 'pl']),
        c('same', 'lidar', 'micro', how='order', types=['pi', 'pl'], nz=1),
        c('same', 'radar', 'micro', how='order', types=['pl', 'ci', 'pi'], nz=1, tiers=T),
        c('same', 'radar', 'bulk', how='order', types=['pl', 'cl', 'ci'], nz=1)]),
    'C25': dict(bounds=B + '; one or two earlier calculations with the same or another approach, instrument or set of classes',
                configs=grid_of('repeat') + [
                    c('same', 'radar', 'emp', how='after', first='bulk', nz=1),
                    c('same', 'radar', 'emp', how='after', first='micro', types=['cl', 'pl'], first_types=['cl']),
                    c('same', 'radar', 'micro', how='after', first='emp', first_types=['ci'], nz=1),
                    c('same', 'radar', 'bulk', how='after', first='emp', first_kind='lidar', nz=1),
                    c('same', 'lidar', 'emp', how='after', first='bulk', first_kind='radar'),
                    c('same', 'radar', 'emp', how='after', first='bulk', first_conv=True),
                    c('same', 'lidar', 'bulk', how='after', first='emp'),
                    c('same', 'lidar', 'micro', how='after', first='bulk', nz=1), c('same', 'radar', 'micro', how='repeat', nz=1, width=False),
                    c('same', 'radar', 'micro', how='after', first='micro', types=['pi'], first_types=['cl'], nz=2),
                    c('same', 'lidar', 'micro', how='after', first='micro', types=['pl'], first_types=['cl'], nz=2),
                    c('same', 'radar', 'bulk', how='after', first='emp', tiers=T)]),
    'C26': dict(bounds=B + '; time steps in one piece or in chunks of 1..3',
                configs=[c('same', k, 'micro', how='schedule', chunk=ch, nt=3, nz=1, types=[t])
                         for k in ('radar', 'lidar') for t in ('cl', 'ci') for ch in (None, 1, 2, 3)] +
                [c('same', k, 'micro', how='schedule', chunk=2, nt=4, nz=1, types=[t]) for k in ('radar', 'lidar') for t in ('cl', 'pi')] +
                [c('same', k, 'micro', how='schedule', chunk=2, nt=3, nz=1, types=['pl', 'cl'], tiers=T)
                 for k in ('radar', 'lidar')]),
    'C27': dict(bounds=B + '; pressure in Pa, hPa or kPa, temperature in K, degC or degF, height in m or km; pressure and '
                'temperature, or heights, arbitrary in the one-class configurations',
                configs=[c('same', k, lg, how='units', units=u, nz=nz) for k in ('radar', 'lidar')
                         for lg, nz in (('emp', 2), ('bulk', 2), ('micro', 1)) for u in U] +
                [c('same', 'radar', 'emp', how='units', units=['Pa', 'degC'], sym=['p', 'T'], nz=1),
                 c('same', 'radar', 'bulk', how='units', units=['km', 'degC'], sym=['z'], types=['cl']),
                 c('same', 'lidar', 'emp', how='units', units=['Pa', 'degC', 'km'], sym=['p', 'T', 'z'], types=['ci']),
                 c('same', 'lidar', 'bulk', how='units', units=['Pa', 'degF', 'km'], sym=['p', 'T', 'z'], types=['ci'])]),
    'C28': dict(bounds=B + '; 2 x 2 columns, compared with each one alone',
                configs=[c('columns', 'radar', 'emp', types=['cl'], nz=1),
                         c('columns', 'radar', 'bulk', types=['ci'], nz=1, it=0),
                         c('columns', 'radar', 'micro', types=['ci'], nz=1),
                         c('columns', 'radar', 'micro', types=['cl'], nz=1, i=0),
                         c('columns', 'lidar', 'emp', types=['cl'], nz=2, i=0, it=0),
                         c('columns', 'lidar', 'bulk', types=['pl'], nz=1),
                         c('columns', 'lidar', 'micro', types=['cl'], nz=1, i=0),
                         c('columns', 'lidar', 'micro', types=['pi'], nz=1, it=0), c('columns', 'radar', 'micro', types=['cl'], nz=1, nt=1, it=0, disp=True),
                         c('columns', 'lidar', 'micro', types=['cl'], nz=1, N=1, i=0, disp=True), c('columns', 'lidar', 'bulk', types=['ci'], N=1, i=0),
                         c('columns', 'radar', 'bulk', types=['cl'], N=1, i=0), c('columns', 'radar', 'micro', types=['pi'], N=1, i=0),
                         c('columns', 'lidar', 'bulk', types=['ci'], nt=1, it=0), c('columns', 'radar', 'bulk', types=['cl'], nt=1, it=0)]),
    'C29': dict(bounds='the bounds of the harnesses concerned, with the smallest shapes', configs=[
        ('radar_empirical', dict(N=1, nz=1, types=['cl', 'ci'], frame=True, sym=['p', 'T']), {}),
        ('bulk', dict(types=['cl', 'pi'], re=[30, 40], conv=True, frame=True), {}),
        ('bulk', dict(kind='lidar', types=['ci'], mie=True, re=[30, 40], frame=True), {}),
        ('bulk', dict(kind='lidar', types=['pl'], rad='CESM', re=[30, 40], frame=True), {}),
        ('micro_radar', dict(nz=1, types=['ci', 'cl'], frame=True), {}),
        ('micro_lidar', dict(nz=1, types=['pl', 'cl'], frame=True), {}),
        ('radar_empirical', dict(N=1, nz=1, types=['cl', 'ci'], frame=True, sym=['T'], z_units='km'), {}),
        ('bulk', dict(types=['ci'], re=[30, 40], re_nan=True, frame=True, z_units='km'), {}),
        ('bulk', dict(types=['cl'], re=[30, 40], re_nan=True, frame=True), {}),
        ('bulk', dict(kind='lidar', types=['cl'], re=[30, 40], re_nan=True, frame=True, z_units='km'), {}),
        ('lidar_empirical', dict(types=['cl', 'ci'], frame=True), {}), ('ldr', dict(types=['cl', 'ci'], bounds=False, frame=True), {}),
        ('molecular', dict(frame=True), {}), ('gas', dict(frame=True), {}), ('ze_min', dict(frame=True), {}),
        ('radar_phase', dict(N=1, frame=True), {}), ('lidar_phase', dict(N=1, nz=1, frame=True), {}), ('cosp_mask', dict(symb=['ci'], nz=2, frame=True), {}),
        ('psd', dict(fixed=0.0, t='pl', frame=True), {}), ('lidar_total', dict(N=1, nz=2, frame=True), {}),
        ('total_ze', dict(N=1, nz=2, frame=True), {}),
        ('radar_accumulate', dict(nz=2, N=1, frame=True), {}),
    ]),
}
