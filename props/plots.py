"""What the display routines hand to the plotting library."""
import numpy as np
import xarray as xr
from .common import base_model, put, da


class _Ax:
    """stands for the axes and keeps what it is asked to draw"""

    def __init__(self):
        self.drawn = []

    def pcolormesh(self, x, y, v, **k):
        self.drawn.append(('mesh', x, y, v))
        return self

    def pcolor(self, x, y, v, **k):
        self.drawn.append(('hatch', x, y, v))

    def plot(self, x, y, **k):
        self.drawn.append(('line', x, y))

    def fill_betweenx(self, y, a, b, **k):
        self.drawn.append(('fill', y, a, b))

    def get_xticklabels(self, **k):
        return []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return self

    def __call__(self, *a, **k):
        return self


def _display(env, m):
    D = env.emc2.plotting.SubcolumnDisplay
    d = object.__new__(D)
    d.model = m
    d._ds = {'model': m.ds}
    d.axes = np.empty((1,), dtype=object)
    d.axes[0] = _Ax()
    return d


def _model(env, N, nt, nz, name, x, two_d=False):
    m = base_model(env)
    m.ds = xr.Dataset(coords={m.time_dim: np.array([np.datetime64('2020-01-01T%02d:00:00' % (3 * i), 'ns') for i in range(nt)]),
                              m.height_dim: np.arange(nz) * 100.0 + 50.0})
    p = env.real('p', (nt, nz), 200.0, 1000.0)
    put(m, m.p_field, p, units='hPa')
    put(m, m.z_field, np.tile(np.arange(nz) * 100.0 + 50.0, (nt, 1)), units='m')
    m.ds[name] = da(x, (m.time_dim, m.height_dim) if two_d else ('subcolumn', m.time_dim, m.height_dim))
    m.ds = m.ds.assign_coords(subcolumn=np.arange(N))
    return m


def mesh(env):
    """the colour meshes show the field of the requested column, profile or time"""
    N, nt, nz = env.param('N', 2), env.param('nt', 2), env.param('nz', 3)
    what, pc = env.param('what', 'series'), env.param('pressure', True)
    masked = env.param('mask', False)
    two_d = env.param('two_d', False) or what in ('q', 'inst')
    sh = (nt, nz) if two_d else (N, nt, nz)
    x = env.real('x', sh, -4.0, 4.0)
    gone = env.bool('gone', sh, split=False)
    v = env.ite(gone, np.nan, x)
    m = _model(env, N, nt, nz, 'f', v + 0.0, two_d)
    d = _display(env, m)
    k = dict(title='t', subplot_index=(0,), colorbar=False, cbar_label='c')
    psh = (N, nz) if what == 'profile' else (nt, nz)
    M = None
    if masked:
        M = env.real('m', psh, -1.0, 2.0)
        k['Mask_array'] = M
    col, t = env.param('col', N - 1), env.param('t', nt - 1)
    if what == 'series':
        env.returns('runs', d.plot_subcolumn_timeseries, 'f', col, pressure_coords=pc, **k)
        want = (lambda i, j: v[i, j]) if two_d else (lambda i, j: v[col, i, j])
    elif what == 'profile':
        env.returns('runs', d.plot_single_profile, 'f', m.ds[m.time_dim].values[t], pressure_coords=pc, **k)
        want = lambda i, j: v[i, t, j]
    elif what == 'q':
        env.returns('runs', d.plot_column_input_q_timeseries, 'f', pressure_coords=pc, **k)
        want = lambda i, j: v[i, j] * 1000.0
    else:
        ins = env.emc2.core.instrument.Instrument.__new__(env.emc2.core.instrument.Instrument)
        ins.ds = xr.Dataset({'f': m.ds['f'].rename({m.time_dim: 'time', m.height_dim: 'height'})} if m.time_dim != 'time' or
                            m.height_dim != 'height' else {'f': m.ds['f']})
        ins.ds = ins.ds.assign_coords(height=np.arange(nz) * 100.0 + 50.0)
        env.returns('runs', d.plot_instrument_timeseries, ins, 'f', **k)
        want = lambda i, j: v[i, j]
    r = [q for q in d.axes[0].drawn if q[0] == 'mesh']
    env.check('one mesh drawn', len(r) == 1)
    g = env.xp.array(r[0][3])
    env.check('a row for each level, a column for each of the others', tuple(g.shape) == psh[::-1])
    for i in range(psh[0]):
        for j in range(nz):
            w = want(i, j)
            if masked:
                w = env.ite(M[i, j] > 0, np.nan, w)
            env.check('value in its place', env.or_(env.and_(env.isnan(g[j, i]), env.isnan(w)), env.close(g[j, i], w)))
    env.check('field itself unchanged', env.all(_eqn(env, m.ds['f'].values, v)))


def _eqn(env, a, b):
    return [env.or_(env.and_(env.isnan(a[i]), env.isnan(b[i])), a[i] == b[i]) for i in np.ndindex(*b.shape)]


def regridded(env):
    """the meshes of cloud fraction and scattering ratio on levels of their own"""
    nt, nl, nc, N = env.param('nt', 2), env.param('nl', 2), env.param('nc', 2), env.param('N', 2)
    sr = env.param('sr', False)
    sh = (N, nt, nl, nc) if sr else (nt, nl, nc)
    v = env.real('x', sh, -1.0, 4.0)
    a = v + 0.0
    m = _model(env, N, nt, 2, 'f', env.real('f', (N, nt, 2), 0, 1))
    d = _display(env, m)
    lev = np.arange(nl) * 1.0 + 0.5
    k = dict(title='t', subplot_index=(0,), colorbar=False, cbar_label='c')
    c, s = nc - 1, N - 1
    if sr:
        env.returns('runs', d.plot_regridded_SR_timeseries, a, lev, c, s, **k)
    else:
        env.returns('runs', d.plot_regridded_CF_timeseries, a, lev, c, **k)
    r = [q for q in d.axes[0].drawn if q[0] == 'mesh']
    env.check('one mesh drawn', len(r) == 1)
    g = env.xp.array(r[0][3])
    env.check('a row for each level', tuple(g.shape) == (nl, nt))
    for i in range(nt):
        for j in range(nl):
            w = v[s, i, j, c] if sr else v[i, j, c]
            bad = (w == 0) if sr else (w <= 0)
            env.check('value in its place, nothing where there is none',
                      env.ite(bad, env.isnan(g[j, i]), env.close(g[j, i], w)))
    env.check('what was given is unchanged', env.all(_eqn(env, a, v)))


def profile(env):
    """mean profiles: what is drawn is the mean and spread of what is there"""
    N, nt, nz = env.param('N', 2), env.param('nt', 2), env.param('nz', 2)
    name = env.param('name', 'f')
    inst = env.param('inst', False)
    geom = env.param('geom', 'auto')
    two_d = inst or env.param('two_d', False)
    sh = (nt, nz) if two_d else (N, nt, nz)
    zeros = env.param('gone', True)
    g = env.bool('gone', sh, split=True) if zeros else None
    ze = 'Ze' in name
    v = env.real('x', sh, -20.0, 20.0) if ze else env.real('x', sh, 0.5, 4.0)
    lin = 10.0 ** (v / 10.0) if ze else v
    if zeros:
        v = env.ite(g, np.nan, v)
    m = _model(env, N, nt, nz, name, v + 0.0, two_d)
    d = _display(env, m)
    M = None
    k = dict(title='t', subplot_index=(0,), use_geom_mean=geom)
    if env.param('mask', False):
        mk = env.bool('m', sh, split=True)
        M = env.array(env.ite(mk, 1.0, 0.0))
        k['Mask_array'] = M
    tr = env.param('tr')
    ts = list(range(nt))
    tv = m.ds[m.time_dim].values
    if tr is not None:
        if len(tr) == 1:
            ts = [tr[0]]
            k['time'] = np.array(tv[tr[0]])
        else:
            ts = list(range(tr[0], tr[1]))
            k['time_range' if inst else 'time'] = np.array([tv[tr[0]], tv[tr[1]]])
    if inst:
        I = env.emc2.core.instrument.Instrument
        ins = I.__new__(I)
        ins.ds = xr.Dataset({name: (('time', 'height'), m.ds[name].data)},
                            coords=dict(time=tv, height=np.arange(nz) * 100.0 + 50.0))
        env.returns('runs', d.plot_instrument_mean_profile, ins, name, **k)
    else:
        env.returns('runs', d.plot_subcolumn_mean_profile, name, pressure_coords=env.param('pressure', True), **k)
    line = [q for q in d.axes[0].drawn if q[0] == 'line']
    fill = [q for q in d.axes[0].drawn if q[0] == 'fill']
    env.check('one line and one spread', len(line) == 1 and len(fill) == 1)
    xs = env.xp.array(line[0][1])
    lo, hi = env.xp.array(fill[0][2]), env.xp.array(fill[0][3])
    env.check('a value for each level', tuple(xs.shape) == (nz,))
    xp = env.xp
    geo = geom is True or (geom == 'auto' and any(q in name for q in ('alpha', 'beta', 'OD', 'Ze')))
    for j in range(nz):
        L = []
        for i in np.ndindex(*sh[:-1]):
            if i[-1] not in ts:
                continue
            q = i + (j,)
            if zeros and g[q]:
                continue
            if M is not None and mk[q]:
                continue
            L.append(xp.log(lin[q]) if geo else lin[q])
        if not L:
            continue
        mu = sum(L[1:], L[0]) / len(L)
        var = sum(((y - mu) ** 2 for y in L[1:]), (L[0] - mu) ** 2) / len(L)
        mean, sd = (xp.exp(mu), xp.exp(xp.sqrt(var))) if geo else (mu, xp.sqrt(var))
        if ze:
            env.check('mean profile', env.close(xs[j], 10 * xp.log10(mean), atol=1e-6))
            if not geo:
                env.check('upper edge of the spread', env.close(hi[j], 10 * xp.log10(mean + sd), atol=1e-6))
        else:
            env.check('mean profile', env.close(xs[j], mean, atol=1e-6))
            if geo:
                continue
            env.check('upper edge of the spread', env.close(hi[j], mean + sd, atol=1e-6))
            env.check('lower edge of the spread', env.close(lo[j], mean - sd, atol=1e-6))


def place(env):
    """the display keeps the requested place of a regional output and leaves the model as it was"""
    nt, nz, nla, nlo = 1, 2, env.param('nla', 2), env.param('nlo', 2)
    m = base_model(env)
    m.lat_dim, m.lon_dim = 'lat', 'lon'
    lat, lon = np.arange(nla) * 1.5 + 70.0, np.arange(nlo) * 2.0 - 150.0
    v = env.real('x', (nla, nlo, nt, nz), -4.0, 4.0)
    dims = ['lat', 'lon', m.time_dim, m.height_dim]
    co = dict(lat=lat, lon=lon)
    m.ds = xr.Dataset({'f': (dims, v + 0.0)}, coords=co)
    d = _display(env, m)
    sel = env.param('sel', [1, 0])
    import copy
    d.model = copy.deepcopy(m)
    env.returns('runs', d._crop_lat_lon, d.model, *(tuple(sel)), **dict(deep=True))
    def ind(x, q):
        if x is None:
            return 0
        return x if isinstance(x, int) else int(np.argmin(np.abs(q - x)))
    i, j = ind(sel[0], lat), ind(sel[1], lon)
    g = d.model.ds['f']
    env.check('the place is gone from the dimensions', tuple(g.dims) == (m.time_dim, m.height_dim))
    g = g.values
    env.check('the requested place', env.all([env.close(g[q], v[(i, j) + q]) for q in np.ndindex(nt, nz)]))
    env.check('the model as it was', m.ds['f'].shape == v.shape and bool(m.ds['f'].dims == tuple(dims)))


HARNESSES = dict(place=place, mesh=mesh, regridded=regridded, profile=profile)
T = ('thorough',)
PROPERTIES = {
    'C43': dict(
        bounds='up to 2 x 2 x 3 subcolumns, times and levels (thorough: 3 x 3 x 3 for meshes), missing and masked cells '
               'anywhere; values in [-4, 4], positive values in [0.5, 4] and reflectivities in [-20, 20] dBZ for profiles',
        configs=[
            ('mean_sd', {}, {}), ('mean_sd', dict(axis=0), {}), ('mean_sd', dict(geom=True, axis=1), {}),
            ('mean_sd', dict(sh=[2, 2, 1], axis=[0, 1]), {}), ('mean_sd', dict(geom=True, axis=0, neg=True), {}),
            ('mesh', {}, {}), ('mesh', dict(mask=True, col=0), {}), ('mesh', dict(what='profile', mask=True), {}),
            ('mesh', dict(what='profile', t=0, pressure=False), {}), ('mesh', dict(what='q', mask=True), {}),
            ('mesh', dict(what='inst', mask=True), {}), ('mesh', dict(two_d=True, pressure=False), {}),
            ('mesh', dict(N=3, nt=3, col=1, mask=True), T), ('mesh', dict(N=3, nt=3, t=1, what='profile', mask=True), T),
            ('regridded', {}, {}), ('regridded', dict(sr=True), {}), ('regridded', dict(sr=True, nt=3, nl=3, N=3, nc=3), T),
            ('regridded', dict(nt=3, nl=3, nc=3), T),
            ('profile', dict(nt=1), {}), ('profile', {}, T), ('profile', dict(name='Ze_tot', two_d=True), {}),
            ('profile', dict(name='Ze_tot', geom=False, two_d=True), {}), ('profile', dict(name='Ze_tot', inst=True), {}),
            ('profile', dict(name='Ze_tot', N=1, mask=True, gone=False), {}), ('profile', dict(name='alpha_p', N=1), {}),
            ('profile', dict(name='alpha_p'), T), ('profile', dict(mask=True, nt=1, gone=False), {}),
            ('profile', dict(inst=True, nt=3, tr=[1, 2]), {}), ('profile', dict(inst=True, mask=True, gone=False), {}),
            ('profile', dict(tr=[0, 2], nt=3, gone=False), {}), ('profile', dict(tr=[1]), {}),
            ('place', {}, {}), ('place', dict(sel=[None, 1]), {}), ('place', dict(sel=[71.1, -149.5], nlo=3), {}),
            ('place', dict(sel=[-1, None]), {})],
        assumptions=['missing values are NaN (no infinities)', 'matplotlib draws what it is given']),
}

