"""Handling of the model's data: stacking, cropping, cleaning, renaming and air density."""
import numpy as np
import xarray as xr
from .common import base_model, put, set_N, da, instrument


def _regional(env, lon=True, time=True):
    nla, nlo, nt, nz = env.param('nla', 2), env.param('nlo', 2), env.param('nt', 2), env.param('nz', 2)
    m = base_model(env)
    m.lat_dim, m.lon_dim = 'lat', 'lon'
    size = dict(lat=nla, lon=nlo, time=nt, height=nz)
    dims = env.param('dims', ['time', 'height', 'lat', 'lon'])
    dims = [d for d in dims if (lon or d != 'lon') and (time or d != 'time')]
    x = env.real('x', tuple(size[d] for d in dims), -5.0, 5.0)
    d2 = [d for d in dims if d != 'height']
    y = env.real('y', tuple(size[d] for d in d2), -5.0, 5.0)
    d1 = env.param('d1', ['height'])
    w = env.real('w', tuple(size[d] for d in d1), -5.0, 5.0)
    m.ds['x'] = da(x, dims, units='m')
    m.ds['y'] = da(y, d2, units='s')
    m.ds['w'] = da(w, d1)
    if env.param('coords', True):
        for d in dims:
            m.ds[d] = xr.DataArray(np.arange(size[d]) * 2.0 + 1.0, dims=d)
    return m, size, dims, d2, d1, x, y, w


def stack(env):
    """regional output is stacked to columns, processed, and unstacked"""
    lon, time = env.param('lon', True), env.param('time', True)
    m, size, dims, d2, d1, x, y, w = _regional(env, lon, time)
    N = env.param('N', 2)
    env.returns('stacks', m.check_and_stack_time_lat_lon)
    t = m.time_dim
    space = ['lat'] + (['lon'] if lon else [])
    if all(size[d] == 1 for d in space):
        env.check('no stacking of a single column', t == 'time' and m.stacked_time_dim is None)
        env.check('column dimensions', tuple(m.ds['x'].dims) == ('time', 'height'))
        sx = env.values_of(m.ds['x'])
        for it in range(size['time']):
            for k in range(size['height']):
                at = dict(time=it, height=k, lat=0, lon=0)
                env.check('values', sx[it, k] == x[tuple(at[d] for d in dims)])
        return
    env.check('time is the stacked dimension', t == 'time_lat_lon' and m.stacked_time_dim == 'time')
    env.check('columns first', tuple(m.ds['x'].dims) == (t, 'height') and tuple(m.ds['y'].dims) == (t,))
    n = m.ds.sizes[t]
    nt = size['time'] if time else 1
    env.check('one column per place and time', n == int(np.prod([size[d] for d in space])) * nt)
    # something calculated for the columns
    set_N(m, N)
    sx = env.values_of(m.ds['x'])
    f = np.arange(1, N + 1) * 10.0
    m.ds['sub_col_f'] = da(sx[None] * f[:, None, None], ('subcolumn', t, 'height'), units='u')
    m.ds['g'] = da(sx * 3.0, (t, 'height'))
    env.returns('unstacks', m.unstack_time_lat_lon, **({} if env.param('squeeze', True) else
                                                        dict(squeeze_single_dims=False)))
    env.check('time dimension is back', m.time_dim == 'time' and m.stacked_time_dim is None)
    r = m.ds
    sq = env.param('squeeze', True)
    full = dict(size, time=nt)
    for ila in range(full['lat']):
        for ilo in range(full['lon'] if lon else 1):
            for it in range(nt):
                for k in range(full['height']):
                    at = dict(time=it, height=k, lat=ila, lon=ilo)
                    want = x[tuple(at[d] for d in dims)]

                    def pick(name, **e):
                        v = r[name]
                        i = tuple(dict(at, **e)[d] for d in v.dims)
                        return env.values_of(v)[i]
                    env.check('field', pick('x') == want)
                    env.check('field without height', pick('y') == y[tuple(at[d] for d in d2)])
                    env.check('calculated field', env.close(pick('g'), want * 3.0))
                    for s in range(N):
                        env.check('subcolumn field', env.close(pick('sub_col_f', subcolumn=s), want * f[s]))
    env.check('attributes', r['x'].attrs.get('units') == 'm' and r['sub_col_f'].attrs.get('units') == 'u')
    exp = [d for d in ('time',) if not (sq and nt == 1)] + ['height', 'lat'] + (['lon'] if lon else [])
    env.check('dimensions of a field', sorted(r['x'].dims) == sorted(exp))
    if env.param('coords', True):
        for d in space + (['time'] if time and not (sq and nt == 1) else []):
            env.check('coordinates', list(np.asarray(r[d].values, dtype=float)) == [2.0 * i + 1.0
                                                                                    for i in range(full[d])])


def crop(env):
    """time range"""
    nt, nz = env.param('nt', 3), env.param('nz', 1)
    m = base_model(env)
    x = env.real('x', (nt, nz), -5.0, 5.0)
    put(m, 'x', x)
    t = env.xp.cumsum(env.real('dt', (nt,), 0.25, 5.0))
    lo = env.real('lo', (), -1.0, 16.0)
    hi = lo + env.real('dr', (), 0.0, 16.0)
    alter = env.param('alter', True)
    m.ds['clock'] = da(t, ('time',))
    env.returns('runs', m._crop_time_range, [lo, hi], alter_coord='clock')
    keep = [i for i in range(nt) if t[i] >= lo and t[i] < hi]
    if not keep:
        keep = list(range(nt))
    r = env.values_of(m.ds['x'])
    env.check('number of times', tuple(r.shape) == (len(keep), nz))
    for j, i in enumerate(keep):
        env.check('times in the half-open range', env.close(r[j], x[i]))


def box(env):
    """bounding box of a regional model"""
    ny, nx = env.param('ny', 2), env.param('nx', 1)
    m = base_model(env)
    m.lat_name, m.lon_name, m.lat_dim, m.lon_dim = 'XLAT', 'XLONG', 'south_north', 'west_east'
    dims = ('time', 'south_north', 'west_east')
    lat = env.real('lat', (), -50.0, 50.0) + env.xp.cumsum(env.real('dlat', (ny,), 0.5, 2.0))
    lon = env.real('lon', (), -50.0, 50.0) + env.xp.cumsum(env.real('dlon', (nx,), 0.5, 2.0))
    x = env.real('x', (1, ny, nx), -5.0, 5.0)
    m.ds['XLAT'] = da(env.array([[[lat[i]] * nx for i in range(ny)]]), dims)
    m.ds['XLONG'] = da(env.array([[[lon[j] for j in range(nx)]] * ny]), dims)
    m.ds['x'] = da(x, dims)
    lo, hi = env.real('lo', (2,), -60.0, 70.0), env.real('hi', (2,), -60.0, 70.0)

    def near(c, v):
        return next(i for i in range(len(c)) if all(abs(c[i] - v) <= abs(c[j] - v) for j in range(len(c))))
    iy, ix = [lat[i] for i in range(ny)], [lon[j] for j in range(nx)]
    for c, k in ((iy, 0), (ix, 1)):
        env.assume(env.and_(hi[k] >= lo[k], *[env.or_(c[i] + c[i + 1] - 2 * e[k] > 1e-6, c[i] + c[i + 1] - 2 * e[k] < -1e-6)
                                              for i in range(len(c) - 1) for e in (lo, hi)]))
    env.returns('runs', m._crop_bounding_box, (lo[0], lo[1], hi[0], hi[1]))
    r = env.values_of(m.ds['x'])
    a, b, c, d = near(iy, lo[0]), near(iy, hi[0]), near(ix, lo[1]), near(ix, hi[1])
    env.check('size', tuple(r.shape) == (1, b - a + 1, d - c + 1))
    for i in range(a, b + 1):
        for j in range(c, d + 1):
            env.check('everything from one corner to the other', r[0, i - a, j - c] == x[0, i, j])


FIELDS = ['%s_frac_subcolumns_%s', '%s_q_subcolumns_%s', '%s_n_subcolumns_%s']
BOTH = ['sub_col_Ze_%s', 'sub_col_Vd_%s', 'sub_col_sigma_d_%s', 'sub_col_Ze_att_%s', 'sub_col_beta_p_%s', 'sub_col_alpha_p_%s',
        'sub_col_OD_%s', 'sub_col_LDR_%s', 'sub_col_beta_att_%s']
SIM = [f % (k, c) for f in FIELDS for k in ('strat', 'conv') for c in ('cl', 'ci', 'pl', 'pi')] + [
    f % e for f in BOTH for e in ('cl_strat', 'ci_conv', 'tot_strat', 'tot_conv', 'tot')] + [
    'hyd_ext_strat', 'hyd_ext_conv', 'detect_mask', 'ext_mask', 'strat_phase_mask_HSRL', 'conv_phase_mask_HSRL',
    'phase_mask_HSRL_all_hyd', 'phase_mask_KAZR_sounding_all_hyd', 'strat_COSP_phase_mask', 'COSP_phase_mask_all_hyd',
    'COSP_ATBtot_strat', 'COSP_ATBcross_conv', 'COSP_SR_strat', 'COSP_SR_all_hyd', 'COSP_ATBtot_all_hyd',
    'mpr_q', 'strat_phase_mask_HSRL_mpr', 'strat_phase_mask_HSRL_mpr_sum', 'phase_mask_HSRL_all_hyd_fpr']


def save(env):
    """saving the simulated subcolumns and loading them into the model they came from"""
    N, nt, nz = sh = env.param('N', 2), env.param('nt', 1), env.param('nz', 1)
    v, ext = {}, env.real('atm_ext', (nt, nz), 0.0, 1.0)
    src = env.real('T', (nt, nz), 200.0, 300.0)

    def model():
        m = base_model(env)
        put(m, 'temperature', src)
        m.ds[m.time_dim] = xr.DataArray(np.arange(nt) * 3.0, dims=m.time_dim)
        return m
    m = model()
    set_N(m, N)
    for n in SIM[env.param('part', 0)::4]:
        x = env.real(n, sh, -50.0, 50.0)
        v[n] = env.ite(env.bool('gone_' + n, sh), np.nan, x)
        put(m, n, v[n], sub=True, units='u')
    for n in ('Ze_min', 'atm_ext'):
        v[n] = ext
        put(m, n, ext, units='u')
    kept = {}

    def write(self, name=None, *a, **k):
        kept[name] = xr.Dataset(self)
    old = xr.Dataset.to_netcdf
    xr.Dataset.to_netcdf = write
    try:
        env.returns('saves', m.subcolumns_to_netcdf, 'there.nc')
    finally:
        xr.Dataset.to_netcdf = old
    env.check('under the name given', list(kept) == ['there.nc'])
    saved = kept['there.nc']
    for n in v:
        env.check('saved: ' + n, n in saved.variables)
    other = model()
    with _Files(env, saved):
        env.returns('loads', other.load_subcolumns_from_netcdf, 'there.nc')
    for n, x in v.items():
        y = other.ds[n]
        env.check('same dimensions', y.dims == m.ds[n].dims and y.attrs.get('units') == 'u')
        a = env.values_of(y)
        env.check('same values', env.all([env.ite(env.isnan(p), env.isnan(q), env.and_(env.not_(env.isnan(q)), p == q))
                                          for p, q in zip(x.reshape(-1), a.reshape(-1))]))
    env.check('number of subcolumns', int(other.num_subcolumns) == N)
    env.check('fields of the model stay', env.close(env.values_of(other.ds['temperature']), src, rtol=0.0))


def clean(env):
    """zeros of the subcolumn fields become missing, other fields stay"""
    N, nt, nz = sh = env.param('N', 2), env.param('nt', 1), env.param('nz', 2)
    m = base_model(env)
    set_N(m, N)
    more = env.param('more')
    v = {}
    for n, sub in (('sub_col_Ze_tot', True), ('sub_col_q', True), ('strat_q_subcolumns_cl', True), ('qs_cl', False),
                   ('other_cl', False)):
        x = env.real(n, sh if sub else (nt, nz), -1.0, 1.0)
        x = env.ite(env.bool('zero_' + n, sh if sub else (nt, nz)), 0.0, x)
        v[n] = x
        put(m, n, x, sub=sub, units='u')
    env.returns('runs', m.finalize_subcol_fields, *([list(more)] if more else []))
    for n, x in v.items():
        y = env.values_of(m.ds[n])
        if 'sub_col' in n or any(a in n for a in more or []):
            env.check('zero becomes missing and other values stay',
                      env.ite(x == 0, env.isnan(y), env.and_(env.not_(env.isnan(y)), env.ite(env.isnan(y), 0.0, y) == x)))
        else:
            env.check('field stays', env.close(y, x))


def clamp(env):
    """values set to the range of a grid"""
    n = env.param('n', 3)
    x = env.real('x', (n,), -10.0, 10.0)
    x = env.ite(env.bool('gone', (n,)), np.nan, x)
    g = env.real('g', (env.param('ng', 3),), -5.0, 5.0)
    r = env.returns('runs', env.emc2.core.model.Model.set_array_to_valid_range, x, g)
    lo, hi = g[0], g[0]
    for i in range(1, len(g)):
        lo, hi = env.ite(g[i] < lo, g[i], lo), env.ite(g[i] > hi, g[i], hi)
    w = env.ite(x < lo, lo, env.ite(x > hi, hi, x))
    env.check('nearest value of the range', env.close(r, w))


def density(env):
    """air density"""
    nt, nz = env.param('nt', 1), env.param('nz', 2)
    m = base_model(env)
    p, T = env.real('p', (nt, nz), 1.0, 1100.0), env.real('T', (nt, nz), 180.0, 320.0)
    put(m, 'p', p, units='hPa')
    put(m, 'T', T, units='kelvin')
    env.returns('runs', m._calc_air_density)
    env.check('ideal gas law', env.close(env.values_of(m.ds['rho_a']) * T * 287.058, p * 100.0))


class _Files:
    """the file readers of the model classes answered with a given dataset"""

    def __init__(self, env, ds, wrf=None):
        M = env.emc2.core.model
        self.M, self.ds, self.wrf = M, ds, wrf
        self.old = {k: M.__dict__.get(k) for k in ('read_netcdf', 'Dataset', 'getvar', 'ALL_TIMES',
                                                   'WRF_PYTHON_AVAILABLE', 'xr')}

    def __enter__(self):
        M, ds = self.M, self.ds
        M.read_netcdf = lambda *a, **k: ds
        M.Dataset = lambda *a, **k: type('D', (), dict(close=lambda s: None))()
        M.getvar = lambda f, n, **k: self.wrf[n]
        M.ALL_TIMES, M.WRF_PYTHON_AVAILABLE = None, True

        class XR:
            def __getattr__(s, n):
                return (lambda *a, **k: ds) if n == 'open_dataset' else getattr(xr, n)
        M.xr = XR()
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None and k not in ('ALL_TIMES',):
                self.M.__dict__.pop(k, None)
            else:
                setattr(self.M, k, v)


def _at(v, env, **idx):
    """the value of a field at named positions"""
    return env.values_of(v)[tuple(idx[d] for d in v.dims)]


def ingest_e3sm(env):
    """reading E3SM/CESM output: pressure, orientation, number concentration and effective radius"""
    nt, nz, nc = env.param('nt', 2), env.param('nz', 2), env.param('nc', 2)
    rain, cls = env.param('rain', False), env.param('cls', 'E3SMv1')
    one = env.param('single_ice', False)
    p3 = env.param('p3', False)
    d = ('time', 'lev', 'ncol')
    ds = xr.Dataset()
    v = {}

    def f(n, lo, hi, dims=d, zero=False):
        sh = tuple(dict(time=nt, lev=nz, ncol=nc)[x] for x in dims)
        x = env.real(n, sh, lo, hi)
        if zero:
            x = env.ite(env.bool('zero_' + n, sh), 0.0, x)
        v[n] = (x, dims)
        ds[n] = da(x + 0.0, dims)
    P0 = 1e5
    ds['P0'] = xr.DataArray(P0)
    f('hyam', 0.0, 0.5, ('lev',))
    f('hybm', 0.1, 1.0, ('lev',))
    f('PS', 5e4, 1.1e5, ('time', 'ncol'))
    f('T', 200.0, 310.0)
    f('Z3', 0.0, 2e4)
    f('Q', 0.0, 0.02)
    types = ['cl', 'ci'] + (['pl'] if rain else []) + ([] if one else ['pi'])
    Nn = dict(cl='NUMLIQ', ci='NUMICE', pl='NUMRAI', pi='NUMSNO')
    Re = dict(cl='AREL', ci='AREI', pl='ADRAIN', pi='ADSNOW')
    for t in types:
        f(Nn[t], 0.0 if not p3 else 1e3, 1e9)
        f(Re[t], 1e-6, 1e-3, zero=True)
    if p3:
        f('CLDICE', 1e-12, 1e-2)
        f('CLDRIM', 1e-12, 1e-2, zero=True)
        f('BVRIM', 1e-12, 1e-2)
        f('FREQI', 1e-3, 1.0)
    lev = np.arange(nz) * 10.0 + 1.0
    ds['lev'] = xr.DataArray(lev, dims='lev')
    ds['time'] = xr.DataArray(np.arange(nt).astype('datetime64[h]').astype('datetime64[ns]'), dims='time')
    ds['ncol'] = xr.DataArray(np.arange(nc), dims='ncol')
    M = env.emc2.core.model

    def make():
        if cls == 'CESM2':
            class C(M.CESM2):
                pass
            return C('file')
        k = dict(include_rain_in_rt=rain, single_ice_class=one, **(dict(mcphys_scheme='P3') if p3 else {}))
        return getattr(M, cls)('file', **k)
    old_lat = M.Model.__init__

    def init(self):
        old_lat(self)
        self.lat_dim = 'ncol'
    with _Files(env, ds):
        M.Model.__init__ = init
        try:
            m = env.returns('reads the output', make)
        finally:
            M.Model.__init__ = old_lat
    env.check('classes', list(m.hyd_types) == types)
    td = m.time_dim
    env.check('columns', tuple(m.ds['T'].dims[:2]) == (td, 'lev') and m.ds.sizes[td] == nt * nc)
    env.check('levels from the ground up', list(np.asarray(m.ds['lev'].values, dtype=float)) == list(lev[::-1]))
    for c in range(nc):
        for it in range(nt):
            i = c * nt + it if nc > 1 else it
            for k in range(nz):
                kk = nz - 1 - k

                def src(n):
                    x, dims = v[n]
                    return x[tuple(dict(time=it, lev=kk, ncol=c)[e] for e in dims)]

                def got(n):
                    return _at(m.ds[n], env, **{td: i, 'lev': k})
                p = P0 * src('hyam') + src('PS') * src('hybm')
                env.check('pressure in hPa', env.close(got('p_3d') * 100.0, p))
                for n in ('T', 'Z3', 'Q'):
                    env.check('levels in order', got(n) == src(n))
                rho = got('rho_a')
                env.check('air density', env.close(rho * 287.058 * src('T'), p))
                for t in types:
                    env.check('number in cm-3', env.close(got(Nn[t]) * 1e6, src(Nn[t]) * rho))
                    r, w = got(Re[t]), src(Re[t]) * (5e5 if t in ('pl', 'pi') else 1.0)
                    g = env.isnan(r)
                    env.check('effective radius', env.ite(src(Re[t]) == 0, g, env.and_(
                        env.not_(g), env.close(env.ite(g, 0.0, r), w))))
                env.check('no convective cloud', got('zeros_cf') == 0.0)
                for t in types:
                    env.check('fields of the classes', m.N_field[t] == Nn[t] and m.strat_re_fields[t] == Re[t] and all(
                        getattr(m, n)[t] == 'zeros_cf' for n in ('conv_frac_names', 'conv_frac_names_for_rad', 'conv_re_fields',
                                                                 'q_names_convective')))
                    want = dict(cl=('FREQL', 'CLDLIQ'), ci=('FREQI', 'CLDICE'), pl=('FREQR', 'RAINQM'), pi=('FREQS', 'SNOWQM'))[t]
                    env.check('fields of the classes', (m.strat_frac_names[t], m.q_names_stratiform[t]) == want and
                              m.strat_frac_names_for_rad[t] == ('CLOUD' if t in ('cl', 'ci') else want[0]))
                if p3:
                    q, rim, fr = src('CLDICE'), src('CLDRIM'), src(m.strat_frac_names['ci'])
                    env.check('in-cloud number in m-3', env.close(got('in_cld_Ni') * fr, src('NUMICE') * rho))
                    env.check('rime fraction', env.close(got('Fr') * q, rim))
                    env.check('rime density', env.ite(rim == 0, got('rho_r') == 0.0,
                                                      env.close(got('rho_r') * src('BVRIM'), rim)))
                    env.check('mass of a particle', env.close(got('qi_norm') * got('in_cld_Ni') * fr, q))


def ingest_plain(env):
    """reading ModelE3 and DHARMA output: fields as they are, with the air density"""
    nt, nz = env.param('nt', 2), env.param('nz', 2)
    cls = env.param('cls', 'ModelE')
    h = 'p' if cls == 'ModelE' else 'hgt'
    td = 'time' if cls == 'ModelE' else 'dom_col'
    pn = 'p_3d' if cls == 'ModelE' else 'p'
    ds = xr.Dataset()
    v = {}
    kw, more = {}, []
    if env.param('pir'):
        kw['single_pi_class'] = False
        more = [(n % c, lo, hi) for c in ('cl', 'ci', 'pl', 'pi', 'pir') for n, lo, hi in
                (('q%s', 0.0, 1e-2), ('n%s', 0.0, 500.0), ('strat_%s_frac', 0.0, 1.0), ('re_strat_%s', 1.0, 500.0))]
        more += [('conv_dat', 0.0, 0.0)]
    own = []
    if cls == 'ModelE' and env.param('classes'):
        for c in ('cl', 'ci', 'pl', 'pi'):
            rad = 'cldmcr' if c in ('cl', 'ci') else 'cldmc' + c
            own += [('q_names_stratiform', c, 'q' + c), ('q_names_convective', c, 'Q%smc' % c.upper()), ('N_field', c, 'n' + c),
                    ('conv_frac_names', c, 'cldmc' + c), ('strat_frac_names', c, 'cldss' + c),
                    ('conv_frac_names_for_rad', c, rad), ('strat_frac_names_for_rad', c, 'cldssr'),
                    ('strat_re_fields', c, 're_ss' + c), ('conv_re_fields', c, 're_mc' + c)]
        more = [(n, 1.0, 90.0) for n in sorted({n for _, _, n in own})]
    for n, lo, hi in [(pn, 50.0, 1050.0), ('t', 200.0, 310.0), ('z', 0.0, 2e4)] + (
            more or [('qcl', 0.0, 1e-2), ('ncl', 0.0, 500.0)]):
        v[n] = env.real(n, (nt, nz), lo, hi)
        x = da(v[n], (td, h), units=dict(t='K', z='m').get(n, 'mb'))
        ds[n] = x.transpose(h, td) if env.param('swap') else x
    if cls == 'ModelE':
        ds['p'] = xr.DataArray(np.arange(nz) * -25.0 + 1000.0, dims='p')
    with _Files(env, ds):
        m = env.returns('reads the output', getattr(env.emc2.core.model, cls), 'file', **kw)
    env.check('time by height', tuple(m.ds['t'].dims) == (m.time_dim, h))
    for c in ('cl', 'ci', 'pl', 'pi', 'pir') if env.param('pir') else ():
        for d, n in ((m.q_names_stratiform, 'q%s'), (m.N_field, 'n%s'), (m.strat_frac_names, 'strat_%s_frac'),
                     (m.strat_frac_names_for_rad, 'strat_%s_frac'), (m.strat_re_fields, 're_strat_%s'),
                     (m.q_names_convective, 'conv_dat'), (m.conv_frac_names, 'conv_dat'),
                     (m.conv_frac_names_for_rad, 'conv_dat'), (m.conv_re_fields, 'conv_dat')):
            env.check('fields of the classes', env.close(env.values_of(m.ds[d[c]]), v[n % c if '%' in n else n], rtol=0.0))
    for d, c, n in own:
        env.check('fields of the classes', env.close(env.values_of(m.ds[getattr(m, d)[c]]), v[n], rtol=0.0))
    for n in v:
        env.check('fields unchanged', env.close(env.values_of(m.ds[n]), v[n], rtol=0.0))
    env.check('air density', env.close(env.values_of(m.ds['rho_a']) * 287.058 * v['t'], v[pn] * 100.0))
    for n in (m.T_field, m.p_field, m.z_field, m.q_names_stratiform['cl'], m.N_field['cl']):
        env.check('field names', n in m.ds.variables)


def ingest_wrf(env):
    """reading WRF output"""
    nt, nz, ny, nx = env.param('nt', 1), env.param('nz', 2), env.param('ny', 2), env.param('nx', 1)
    scheme, cut = env.param('scheme', 'morrison'), 1e-14
    d, sh = ('Time', 'bottom_top', 'south_north', 'west_east'), (nt, nz, ny, nx)
    ds = xr.Dataset()
    v = {}

    def f(n, lo, hi, zero=False, to=None):
        x = env.real(n, sh, lo, hi)
        if zero:
            x = env.ite(env.bool('zero_' + n, sh), 0.0, x)
        v[n] = x
        if to is None:
            ds[n] = da(x, d)
        else:
            to[n] = da(x, d)
    wrf = {}
    f('P', -2e3, 2e3)
    f('PB', 3e4, 1.1e5)
    f('QVAPOR', 0.0, 0.02)
    f('tk', 200.0, 310.0, to=wrf)
    f('z', 0.0, 2e4, to=wrf)
    f('wa', -1.0, 1.0, to=wrf)
    types = dict(cl='QCLOUD', ci='QICE', pl='QRAIN', pi='QSNOW') if scheme != 'nssl' else \
        dict(cl='QCLOUD', ci='QICE', pl='QRAIN', sn='QSNOW', gr='QGRAUP', ha='QHAIL')
    Nn = dict(cl='QNCLOUD' if scheme != 'nssl' else 'QNDROP', ci='QNICE', pl='QNRAIN', pi='QNSNOW', sn='QNSNOW',
              gr='QNGRAUPEL', ha='QNHAIL')
    k = {}
    if env.param('graupel'):
        types['gr'] = 'QGRAUP'
        k = dict(include_gr_class=True, gr_class_is_hail=env.param('graupel') == 'hail')
    for t in types:
        f(types[t], 1e-16, 1e-2, zero=True)
        f(Nn[t], 0.0, 1e9)
    if scheme == 'nssl':
        for n in ('C', 'I', 'R', 'S', 'G', 'H'):
            f('REF' + n, 1.0, 100.0)
        for n in ('QVGRAUPEL', 'QVHAIL'):
            f(n, 1e-9, 1e-4, zero=True)
    if env.param('nu'):
        f('CLDFRA', 0.0, 1.0)
        k['NUWRF'] = True
    with _Files(env, ds, wrf):
        m = env.returns('reads the output', env.emc2.core.model.WRF, 'file', mcphys_scheme=scheme, **k)
    td = m.time_dim
    env.check('columns', tuple(m.ds['T'].dims[:2]) == (td, 'bottom_top') and m.ds.sizes[td] == nt * ny * nx)
    env.check('classes', sorted(m.hyd_types) == sorted(types))
    for y in range(ny):
        for x in range(nx):
            for it in range(nt):
                i = (y * nx + x) * nt + it
                for kz in range(nz):
                    def src(n):
                        return v[n][it, kz, y, x]

                    def got(n):
                        return _at(m.ds[n], env, **{td: i, 'bottom_top': kz})
                    p = src('P') + src('PB')
                    env.check('pressure in hPa', env.close(got(m.p_field) * 100.0, p))
                    env.check('temperature and height', env.and_(got(m.T_field) == src('tk'), got(m.z_field) == src('z')))
                    env.check('vapour', got(m.q_field) == src('QVAPOR'))
                    rho = got('rho_a')
                    env.check('air density', env.close(rho * 287.058 * src('tk'), p))
                    for t in types:
                        q = src(types[t])
                        env.check('mixing ratio', got(m.q_names_stratiform[t]) == q)
                        env.check('number in cm-3', env.close(got(m.N_field[t]) * 1e6, src(Nn[t]) * rho))
                        fr = got(m.strat_frac_names[t])
                        if env.param('nu') and t in ('cl', 'ci'):
                            env.check('cloud fraction of the model', fr == src('CLDFRA'))
                        else:
                            env.check('overcast where there is water', fr == env.ite(q > cut, 1.0, 0.0))
                        env.check('no convective cloud', env.and_(got(m.conv_frac_names[t]) == 0.0,
                                                                  got(m.q_names_convective[t]) == 0.0))
                        if scheme == 'nssl':
                            n = 'REF' + dict(cl='C', ci='I', pl='R', sn='S', gr='G', ha='H')[t]
                            env.check('effective radius', got(m.strat_re_fields[t]) == src(n))
                    if scheme == 'nssl':
                        for t, q, vo in (('gr', 'QGRAUP', 'QVGRAUPEL'), ('ha', 'QHAIL', 'QVHAIL')):
                            has = src(vo) > 0
                            r = env.values_of(m.ds[m.variable_density[t]])[tuple(
                                {td: i, 'bottom_top': kz}[e] for e in m.ds[m.variable_density[t]].dims)]
                            env.check('density of the particles',
                                      env.ite(has, env.close(r * src(vo), src(q)), r == 900.0))


def appended(env):
    """names with appended strings: one sub-domain renamed, several joined"""
    nz = env.param('nz', 2)
    doms = env.param('doms', {'_a': 2})
    every = env.param('every', True)
    m = base_model(env)
    m.lat_dim, m.lon_dim = ('ncol', 'lon') if every else ('lat', 'lon')
    ds = xr.Dataset()
    v = {}
    if every:
        for d, n in doms.items():
            for name, sh, dims in (('T', (1, nz, n), ('time', 'lev', 'ncol' + d)), ('PS', (1, n), ('time', 'ncol' + d)),
                                   ('lat', (n,), ('ncol' + d,))):
                x = env.real(name + d, sh, -5.0, 5.0)
                v[name, d] = x
                ds[name + d] = da(x, dims, units='m')
        k = env.real('k', (nz,), -5.0, 5.0)
        ds['hyam'] = da(k, ('lev',))
        m.ds = ds
        env.returns('runs', m.remove_appended_str, True)
        env.check('names', sorted(m.ds.data_vars) == ['PS', 'T', 'hyam', 'lat'])
        n = sum(doms.values())
        env.check('one dimension', sorted(m.ds.sizes.items()) == sorted(dict(time=1, lev=nz, ncol=n).items()))
        for name, pre in (('T', (0, slice(None))), ('PS', (0,)), ('lat', ())):
            y, o = env.values_of(m.ds[name]), 0
            for d, c in doms.items():
                x = v[name, d]
                for i in range(c):
                    env.check('sub-domains one after the other', env.close(y[pre + (o + i,)], x[pre + (i,)]))
                o += c
            env.check('attributes', m.ds[name].attrs.get('units') == 'm')
        env.check('other fields stay', env.close(env.values_of(m.ds['hyam']), k))
        return
    a, o = env.param('strs', ['_140e', '_50n'])
    size = dict(time=1, lev=nz, lat=2, lon=2)
    for name, dims in (('T', ('time', 'lev', 'lat', 'lon')), ('PS', ('time', 'lat', 'lon'))):
        x = env.real(name, tuple(size[d] for d in dims), -5.0, 5.0)
        v[name] = x
        ds[name + (o + a if name == 'T' else a + o)] = da(x, tuple({'lat': 'lat' + a, 'lon': 'lon' + o}.get(d, d) for d in dims))
    k = env.real('k', (nz,), -5.0, 5.0)
    ds['hyam'] = da(k, ('lev',))
    for d, t in (('lat', a), ('lon', o)):
        ds[d + t] = xr.DataArray(np.arange(2) * 1.5, dims=d + t)
    m.ds = ds
    env.returns('runs', m.remove_appended_str, False)
    env.check('names', sorted(m.ds.data_vars) == ['PS', 'T', 'hyam'])
    env.check('dimensions', dict(m.ds.sizes) == size)
    for name in v:
        env.check('values', env.close(env.values_of(m.ds[name]), v[name]))
    env.check('other fields stay', env.close(env.values_of(m.ds['hyam']), k))


def remove(env):
    """subcolumn fields of one kind of cloud removed, everything else kept"""
    N, nt, nz = env.param('N', 2), 1, env.param('nz', 2)
    which = env.param('which', 'conv')
    m = base_model(env)
    set_N(m, N)
    v = {}
    for n in ('conv_frac_subcolumns_cl', 'strat_frac_subcolumns_cl', 'sub_col_Ze_cl_conv', 'sub_col_Ze_cl_strat',
              'strat_q_subcolumns_cl', 'conv_q_subcolumns_cl', 'conv_phase_mask', 'strat_phase_mask', 'sub_col_Ze_tot'):
        v[n] = env.real(n, (N, nt, nz), -5.0, 5.0)
        put(m, n, v[n], sub=True)
    for n in ('conv_fr', 'strat_fr'):
        v[n] = env.real(n, (nt, nz), -5.0, 5.0)
        put(m, n, v[n])
    had = list(m.ds.data_vars)
    env.returns('runs', m.remove_subcol_fields, *([] if which == 'conv' else [which]))
    gone = [n for n in v if which in n and not n.endswith('_fr')]
    env.check('the fields of this cloud are gone', not any(n in m.ds.variables for n in gone))
    env.check('the others stay', sorted(m.ds.data_vars) == sorted(n for n in had if n not in gone))
    for n in v:
        if n not in gone:
            env.check('values stay', env.close(env.values_of(m.ds[n]), v[n]))


def p3_shape(env):
    """shape and intercept of the P3 ice size distribution from the slope"""
    lam = env.real('lam', (env.param('n', 2),), 1.0, 1e6)
    f = env.emc2.core.model.E3SMv3.calc_mu_n0_from_lambda
    mu, n0 = env.returns('runs', f, lam)
    xp = env.xp
    for i in range(len(lam)):
        w = 0.076 * (lam[i] / 100.0) ** 0.8 - 2.0
        w = env.ite(w < 0, 0.0, env.ite(w > 6, 6.0, w))
        env.check('shape of Heymsfield (2003)', env.close(mu[i], w))
        env.check('shape between 0 and 6', env.and_(mu[i] >= 0, mu[i] <= 6))
        env.check('normalised to one particle', env.close(n0[i] * env.emc2.core.model.gamma(mu[i] + 1.0), lam[i] ** (mu[i] + 1.0)))


def p3_range(env):
    """the P3 properties are limited to the range of the look-up table"""
    nt, nz = 1, env.param('nz', 3)
    M = env.emc2.core.model
    m = base_model(env)
    v, t = {}, xr.Dataset()
    grid = dict(Fr=[0.0, 0.5, 0.9], rho_r=[50.0, 400.0, 900.0], q_norm=[1e-18, 1e-10, 1e-5])
    for n, g in grid.items():
        name = 'qi_norm' if n == 'q_norm' else n
        v[n] = env.ite(env.bool('gone_' + n, (nt, nz)), np.nan, env.real(n, (nt, nz), -2 * g[-1], 2 * g[-1]))
        put(m, name, v[n])
        t[n] = xr.DataArray(np.array(g), dims=n)
    m.set_array_to_valid_range = M.Model.set_array_to_valid_range
    r = env.returns('runs', M.E3SMv3.limit_input_data_to_p3_lut_range, m, t)
    for n, y in zip(('Fr', 'rho_r', 'q_norm'), r):
        g, x = grid[n], v[n]
        env.check('nearest value of the table', env.close(y, env.ite(x < g[0], g[0], env.ite(x > g[-1], g[-1], x))))


HARNESSES = dict(stack=stack, crop=crop, box=box, save=save, clean=clean, clamp=clamp, density=density, ingest_e3sm=ingest_e3sm,
                 ingest_plain=ingest_plain, ingest_wrf=ingest_wrf,
                 appended=appended, remove=remove, p3_shape=p3_shape, p3_range=p3_range)

T = dict(tiers=('thorough',))
PROPERTIES = {
    'C37': dict(
        bounds='2 x 2 x 2 x 2 regional output (thorough: up to 3 of each), 2 subcolumns; every order of the dimensions tried, '
               'with and without longitude, time or coordinates; values arbitrary in [-5, 5]',
        configs=[('stack', {}, {}), ('stack', dict(dims=['lat', 'lon', 'height', 'time'], d1=['time', 'height']), {}),
                 ('stack', dict(dims=['lon', 'time', 'lat', 'height'], nt=1), {}), ('stack', dict(lon=False), {}),
                 ('stack', dict(time=False), {}), ('stack', dict(nla=1, nlo=1), {}), ('stack', dict(nla=1, nlo=3), {}),
                 ('stack', dict(nt=1, squeeze=False), {}), ('stack', dict(nla=3, nlo=2, nt=3, nz=3), T),
                 ('stack', dict(nla=3, lon=False, nt=3, dims=['height', 'lat', 'time']), T),
                 ('stack', dict(nla=2, nlo=3, nt=2, dims=['height', 'lon', 'lat', 'time'], d1=['lat', 'lon']), T)],
        assumptions=['places and times have coordinates without repeated values']),
    'C38': dict(
        bounds='3 times (thorough: 4), 2 subcolumns, 2 levels, 2 sub-domains of up to 3 columns; values arbitrary in [-5, 5] '
               'or missing',
        configs=[('crop', {}, {}), ('crop', dict(nt=4), T), ('box', {}, {}), ('box', dict(ny=1, nx=3), {}),
                 ('box', dict(ny=2, nx=2), T), ('clean', {}, {}), ('clean', dict(more=['qs_']), {}),
                 ('clean', dict(N=3, nz=3), T), ('clamp', {}, {}), ('clamp', dict(n=4, ng=4), T), ('density', {}, {}),
                 ('appended', {}, {}), ('appended', dict(doms={'_a': 1, '_b': 2}), {}),
                 ('appended', dict(doms={'_1': 1, '_10': 3, '_2': 2}), {}), ('appended', dict(every=False), {}),
                 ('remove', {}, {}), ('remove', dict(which='strat'), {})],
        assumptions=['times are numbers instead of dates']),
    'C49': dict(
        bounds='2 subcolumns x 1 time x 1 level (thorough: 3 x 2 x 2), every field the simulators make, arbitrary or missing',
        configs=[('save', dict(part=p), {}) for p in range(4)] + [('save', dict(part=p, N=3, nt=2, nz=2), T) for p in range(4)],
        assumptions=['the netCDF library returns what it was given']),
    'C39': dict(
        bounds='2 times x 2 levels x 2 columns (thorough: 3 levels, 3 columns); all classes of E3SM, CESM, WRF (Morrison with '
               'and without graupel or hail, NSSL), ModelE and DHARMA; values arbitrary in physical ranges, radii also 0',
        configs=[('ingest_e3sm', {}, {}), ('ingest_e3sm', dict(rain=True, nt=1), {}),
                 ('ingest_e3sm', dict(single_ice=True, nc=1), {}), ('ingest_e3sm', dict(cls='CESM2', nt=1), {}),
                 ('ingest_e3sm', dict(p3=True, single_ice=True), {}), ('ingest_e3sm', dict(nz=3, nc=3, rain=True), T),
                 ('ingest_e3sm', dict(nz=3, nc=3, p3=True), T),
                 ('ingest_wrf', {}, {}), ('ingest_wrf', dict(nu=True, nt=2, nz=1), {}),
                 ('ingest_wrf', dict(graupel='hail', ny=1), {}), ('ingest_wrf', dict(graupel='graupel'), {}),
                 ('ingest_wrf', dict(scheme='nssl'), {}), ('ingest_wrf', dict(scheme='nssl', nz=3, nx=2), T),
                 ('ingest_plain', {}, {}), ('ingest_plain', dict(classes=True, nt=1), {}), ('ingest_plain', dict(swap=True), {}), ('ingest_plain', dict(cls='DHARMA'), {}),
                 ('ingest_plain', dict(cls='DHARMA', pir=True, nt=1), {}),
                 ('ingest_plain', dict(cls='DHARMA', swap=True, nz=3), {}), ('p3_shape', {}, {}), ('p3_range', {}, {})],
        assumptions=['reading the file itself and the diagnostics of wrf-python are answered with arbitrary fields']),
}
