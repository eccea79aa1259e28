"""numpy as the code under test sees it: real numpy on concrete values, symbolic semantics otherwise."""
import builtins
import functools
import math
import types
import numpy as np
import z3
from . import alg, ctx as _c
from .alg import (S, I, B, Sym, arith, norm, s_ite, mkB, mkI, b_and, b_or, b_not, is_sym, zi, to_i, _bz, kind)
from .arr import (SymArray, wrap, stack, from_nd, from_list, from_scalar, cast, kind_of_dtype, join_kind, where_vec,
                  unwrap_scalar, obj, DT)
from .ctx import Unsupported

F = {}


def reg(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


# ------------------------------------------------------------ element kernels
def _u(fn, k=None):
    def f(x):
        return fn(x)
    f.k = k
    return f


def _rad(x):
    return arith('mul', x, math.pi / 180.0)


def _sign(x):
    return s_ite(_bz(arith('gt', x, 0)), 1.0, s_ite(_bz(arith('lt', x, 0)), -1.0, arith('mul', x, 0.0)))


def _nan2num(x, nan=0.0, posinf=None, neginf=None):
    if kind(x) != 'f':
        return x
    posinf = np.finfo(float).max if posinf is None else posinf
    neginf = np.finfo(float).min if neginf is None else neginf
    x = norm(x)
    if not is_sym(x):
        return float(np.nan_to_num(x, nan=nan, posinf=posinf, neginf=neginf))
    r = alg.mkS(x.p)
    r = s_ite(x.nan, nan, r)
    r = s_ite(x.pinf, posinf, r)
    return s_ite(x.ninf, neginf, r)


def _sincos(fn):
    def f(x):
        return alg.s_fun(fn, x, getattr(np, fn), -1.0, 1.0)
    return f


U1 = {
    'negative': lambda x: arith('sub', 0, x) if kind(x) != 'b' else arith('sub', 0, x),
    'positive': lambda x: x,
    'absolute': alg.s_abs, 'abs': alg.s_abs, 'fabs': alg.s_abs,
    'exp': lambda x: alg.s_exp(alg.to_s(x) if is_sym(x) else x),
    'exp2': lambda x: alg.s_pow(2.0, x),
    'expm1': lambda x: arith('sub', alg.s_exp(alg.to_s(x) if is_sym(x) else x), 1.0),
    'log': lambda x: alg.s_log(alg.to_s(x) if is_sym(x) else x),
    'log1p': lambda x: alg.s_log(alg.to_s(arith('add', x, 1.0)) if is_sym(x) else 1.0 + x),
    'log10': lambda x: alg.s_log(alg.to_s(x) if is_sym(x) else x, 10),
    'log2': lambda x: alg.s_log(alg.to_s(x) if is_sym(x) else x, 2),
    'sqrt': lambda x: alg.s_sqrt(x),
    'cbrt': lambda x: alg.s_pow(x, 1.0 / 3.0),
    'square': lambda x: arith('mul', x, x),
    'reciprocal': lambda x: arith('div', 1.0, x),
    'isnan': lambda x: mkB(alg.is_nan(x)),
    'isinf': lambda x: mkB(alg.is_inf(x)),
    'isfinite': lambda x: mkB(b_not(b_or(alg.is_nan(x), alg.is_inf(x)))),
    'logical_not': lambda x: mkB(b_not(_bz(x))),
    'invert': lambda x: mkB(b_not(_bz(x))) if kind(x) == 'b' else _uns('invert'),
    'bitwise_not': lambda x: mkB(b_not(_bz(x))) if kind(x) == 'b' else _uns('invert'),
    'floor': lambda x: alg.s_floor(x), 'ceil': lambda x: alg.s_floor(x, True),
    'rint': lambda x: alg.s_round(x),
    'trunc': lambda x: alg.to_s_val(alg.cast_int(x)), 'fix': lambda x: alg.to_s_val(alg.cast_int(x)),
    'sign': _sign,
    'sin': _sincos('sin'), 'cos': _sincos('cos'),
    'tan': lambda x: alg.s_fun('tan', x, np.tan),
    'tanh': lambda x: alg.s_fun('tanh', x, np.tanh, -1.0, 1.0),
    'arctan': lambda x: alg.s_fun('arctan', x, np.arctan),
    'arcsin': lambda x: alg.s_fun('arcsin', x, np.arcsin), 'arccos': lambda x: alg.s_fun('arccos', x, np.arccos),
    'deg2rad': _rad, 'radians': _rad,
    'conjugate': lambda x: x,
    'isnull': lambda x: mkB(alg.is_nan(x)),
}


def _uns(n):
    raise Unsupported(n)


def _logic(op):
    def f(a, b):
        x, y = _bz(a), _bz(b)
        return mkB(b_and(x, y) if op == 'and' else b_or(x, y) if op == 'or' else b_not(alg.b_eq(x, y)))
    return f


U2 = {
    'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'true_divide': 'div',
    'floor_divide': 'floordiv', 'mod': 'mod', 'remainder': 'mod', 'power': 'pow', 'float_power': 'pow',
    'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq', 'not_equal': 'ne',
    'bitwise_and': 'and', 'bitwise_or': 'or', 'bitwise_xor': 'xor',
    'logical_and': _logic('and'), 'logical_or': _logic('or'), 'logical_xor': _logic('xor'),
    'maximum': lambda a, b: alg.s_minmax(a, b, True), 'minimum': lambda a, b: alg.s_minmax(a, b, False),
    'fmax': lambda a, b: alg.s_minmax(a, b, True, False), 'fmin': lambda a, b: alg.s_minmax(a, b, False, False),
    'hypot': lambda a, b: alg.s_sqrt(arith('add', arith('mul', a, a), arith('mul', b, b))),
    'copysign': lambda a, b: s_ite(_bz(arith('ge', b, 0)), alg.s_abs(a), arith('sub', 0, alg.s_abs(a))),
}


def _k2(op, a, b):
    return arith(op, a, b) if isinstance(op, str) else op(a, b)


_BOOLRES = {'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'logical_and', 'logical_or', 'logical_xor'}


def _is_pint(o):
    return hasattr(o, '_magnitude') or type(o).__module__.startswith('pint')


def _is_xr(o):
    return type(o).__module__.startswith('xarray')


def elementwise2(op, a, b, name=None):
    for o in (a, b):
        if _is_pint(o) or _is_xr(o):
            return NotImplemented
        if isinstance(o, (str, bytes)) or o is None:
            return NotImplemented
        if isinstance(o, np.ndarray) and o.dtype.kind in 'mMSU':
            return NotImplemented
    sa, sb = norm(a), norm(b)
    if sa is not None and sb is not None:
        r = _k2(op, sa, sb)
        return r if is_sym(r) else unwrap_scalar(r)
    x = from_scalar(sa) if sa is not None else wrap(a)
    y = from_scalar(sb) if sb is not None else wrap(b)
    n = None
    xa, ya = x.a, y.a
    if x.n is not None or y.n is not None:
        if x.n is not None and y.n is not None:
            if x.n is not y.n and not z3.simplify(zi(to_i(x.n)) == zi(to_i(y.n))).eq(z3.BoolVal(True)) and \
                    _c.CTX.decide(zi(to_i(x.n)) == zi(to_i(y.n))) is not True:
                x, y = x.fixed(), y.fixed()
                xa, ya = x.a, y.a
            else:
                n = x.n
                m = builtins.min(xa.shape[0], ya.shape[0])
                xa, ya = xa[:m], ya[:m]
        else:
            g, o = (x, y) if x.n is not None else (y, x)
            if o.a.ndim < g.a.ndim or (o.a.ndim == g.a.ndim and o.a.shape[0] == 1):
                n = g.n
            else:
                x, y = x.fixed(), y.fixed()
                xa, ya = x.a, y.a
    xb, yb = np.broadcast_arrays(xa, ya, subok=True) if xa.shape != ya.shape else (xa, ya)
    out = np.empty(xb.shape, dtype=object)
    fo = out.reshape(-1)
    fx, fy = xb.reshape(-1), yb.reshape(-1)
    for i in range(len(fo)):
        fo[i] = _k2(op, fx[i], fy[i])
    if op in _BOOLRES or callable(op) and name in _BOOLRES:
        k = 'b'
    elif op == 'div':
        k = 'f'
    elif op in ('add', 'sub', 'mul', 'pow', 'floordiv', 'mod'):
        k = join_kind([x.kind, y.kind])
        if k == 'b' and op in ('sub', 'pow', 'floordiv', 'mod'):
            k = 'i'
    else:
        k = join_kind([kind(v) for v in fo]) if len(fo) else join_kind([x.kind, y.kind])
    r = SymArray(out, k, n)
    if k == 'f':
        r = _floats(r)
    if r.a.ndim == 0 and (sa is not None or x.a.ndim == 0) and (sb is not None or y.a.ndim == 0):
        return SymArray(r.a, r.kind)
    return r


def _floats(r):
    f = r.a.reshape(-1)
    for i in range(len(f)):
        v = f[i]
        if not isinstance(v, (float, S)):
            f[i] = cast(v, 'f')
    r.a = f.reshape(r.a.shape)
    return r


def elementwise1(fn, x, k=None):
    s = norm(x)
    if s is not None:
        r = fn(s)
        return r if is_sym(r) else unwrap_scalar(norm(r))
    w = wrap(x)
    out = np.empty(w.a.shape, dtype=object)
    fo, fx = out.reshape(-1), w.a.reshape(-1)
    for i in range(len(fo)):
        fo[i] = norm(fn(fx[i]))
    kk = k or (join_kind([kind(v) for v in fo]) if len(fo) else w.kind)
    return SymArray(out, kk, w.n)


_U1KIND = {'isnan': 'b', 'isinf': 'b', 'isfinite': 'b', 'logical_not': 'b', 'exp': 'f', 'log': 'f', 'log10': 'f',
           'sqrt': 'f', 'log2': 'f'}


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    for o in inputs:
        if _is_pint(o) or _is_xr(o):
            return NotImplemented
    out = kw.get('out')
    if method == '__call__':
        if name in U1 and len(inputs) == 1:
            r = elementwise1(U1[name], inputs[0], _U1KIND.get(name))
        elif name in U2 and len(inputs) == 2:
            r = elementwise2(U2[name], inputs[0], inputs[1], name)
        elif name in F:
            r = F[name](*inputs)
        elif name == 'gamma':
            r = elementwise1(s_gamma, inputs[0], 'f')
        elif name == 'erf':
            r = elementwise1(lambda x: alg.s_fun('erf', x, math.erf, -1.0, 1.0), inputs[0], 'f')
        elif name == 'matmul':
            r = F['matmul'](*inputs)
        else:
            raise Unsupported('ufunc ' + name)
        w = kw.get('where', True)
        if w is not True:
            base = out[0] if out else SymArray(obj(np.zeros(wrap(r).a.shape)), 'f')
            r = F['where'](w, r, base)
        if out is not None:
            o = out[0]
            o[...] = r
            return o
        return r
    if method == 'reduce':
        red = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_and': 'all',
               'logical_or': 'any'}.get(name)
        if red is None:
            raise Unsupported('reduce of ' + name)
        kk = {k: v for k, v in kw.items() if k in ('axis', 'keepdims')}
        kk.setdefault('axis', 0)
        return F[red](inputs[0], **kk)
    if method == 'accumulate':
        red = {'add': 'cumsum', 'multiply': 'cumprod'}.get(name)
        if red:
            return F[red](inputs[0], axis=kw.get('axis', 0))
        if name in ('maximum', 'minimum', 'logical_or', 'logical_and'):
            return _accum(inputs[0], kw.get('axis', 0), lambda a, b: _k2(U2[name], a, b))
    if method == 'outer':
        a, b = wrap(inputs[0]), wrap(inputs[1])
        a2 = SymArray(a.a.reshape(a.a.shape + (1,) * b.a.ndim), a.kind)
        return array_ufunc(ufunc, '__call__', (a2, b), kw)
    raise Unsupported('ufunc method %s.%s' % (name, method))


def array_function(func, args, kwargs):
    name = func.__name__
    for o in list(args) + list(kwargs.values()):
        if _is_pint(o):
            return NotImplemented
    f = F.get(name)
    if f is None:
        raise Unsupported('numpy.' + name)
    return f(*args, **kwargs)


def s_gamma(x):
    if not is_sym(x):
        from .symscipy import ORIG
        from scipy.special import gamma
        return float(ORIG.get('gamma', gamma)(x))
    r = alg.s_fun('gamma', x, lambda v: s_gamma(float(v)))
    def monos(p):
        yield from p.t
        for _, a, b in p.ites.values():
            yield from monos(a)
            yield from monos(b)
    for m in monos(r.p) if isinstance(r, S) else ():
        for a, _ in m:
            at = alg.ATOMS[a]
            if at.kind == 'F' and at.data.get('fn') == 'gamma' and at.lo is None:
                if alg.psign(at.arg) == 1:
                    at.lo = 0.8
                    _c.CTX.axiom(('gam', at.id), at.z >= z3.RealVal('0.8'))
                else:
                    g = alg.cmp_zero(at.arg, 'gt')
                    if not isinstance(g, bool):
                        _c.CTX.axiom(('gam', at.id), z3.Implies(g, at.z >= z3.RealVal('0.8')))
    return r


# ------------------------------------------------------------------ creation
def _shape(s):
    if isinstance(s, SymArray):
        s = s.tolist()
    if isinstance(s, (I, int, np.integer)):
        s = (s,)
    if isinstance(s, np.ndarray):
        s = s.tolist()
    return tuple(int(v) for v in s)


def _filled(shape, v, k):
    o = np.empty(_shape(shape), dtype=object)
    e = np.empty((), dtype=object)
    e[()] = v
    o[...] = e
    return SymArray(o, k)


@reg('zeros')
def zeros(shape, dtype=float, **k):
    kd = kind_of_dtype(dtype)
    if kd is None:
        return np.zeros(_shape(shape), dtype=dtype)
    return _filled(shape, {'f': 0.0, 'i': 0, 'b': False}[kd], kd)


@reg('empty')
def empty(shape, dtype=float, **k):
    kd = kind_of_dtype(dtype)
    if kd is None:
        return np.empty(_shape(shape), dtype=dtype)
    # uninitialised memory: an arbitrary marker value
    return _filled(shape, {'f': 7.7e77, 'i': 7777777, 'b': True}[kd], kd)


@reg('ones')
def ones(shape, dtype=float, **k):
    kd = kind_of_dtype(dtype)
    return _filled(shape, {'f': 1.0, 'i': 1, 'b': True}[kd], kd)


@reg('full')
def full(shape, fill_value, dtype=None, **k):
    v = norm(fill_value)
    if v is None:
        if isinstance(fill_value, str):
            return np.full(_shape(shape), fill_value, dtype=dtype)
        w = wrap(fill_value)
        r = np.broadcast_to(w.a, _shape(shape)).copy()
        r = SymArray(r, w.kind)
        return r if dtype is None else r.astype(dtype)
    kd = kind(v) if dtype is None else kind_of_dtype(dtype)
    return _filled(shape, cast(v, kd), kd)


def _like(fn):
    def f(a, *args, dtype=None, shape=None, **k):
        w = wrap(a.values if _is_xr(a) else a)
        if dtype is None:
            dtype = DT[w.kind]
        return fn(w.fixed().a.shape if shape is None else shape, *args, dtype=dtype)
    return f


F['zeros_like'] = _like(zeros)
F['ones_like'] = _like(ones)
F['empty_like'] = _like(empty)
F['full_like'] = _like(full)


@reg('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'copy')
def array(x, dtype=None, copy=None, ndmin=0, **k):
    if dtype is not None and kind_of_dtype(dtype) is None:
        return np.array(x.to_numpy() if isinstance(x, SymArray) else x, dtype=dtype)
    if isinstance(x, (str, bytes)) or _has_other(x):
        return np.array(x)
    w = wrap(x)
    if w is x or (isinstance(x, SymArray)):
        w = SymArray(w.a if copy is False else w.a.copy(), w.kind, w.n, w.dom)
    if dtype is not None:
        w = w.astype(dtype)
    while w.a.ndim < ndmin:
        w = SymArray(w.a[None], w.kind)
    return w


def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and (dtype is None or kind_of_dtype(dtype) == x.kind):
        return x
    return array(x, dtype)


F['asarray'] = F['asanyarray'] = F['ascontiguousarray'] = asarray


def _has_other(x):
    """lists of strings / datetimes stay numpy"""
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'mMSU' or (x.dtype == object and x.size and norm(x.reshape(-1)[0]) is None and
                                          not isinstance(x.reshape(-1)[0], (SymArray,)))
    if isinstance(x, (list, tuple)):
        for e in x:
            if isinstance(e, (str, bytes, np.datetime64)) or e is None:
                return True
            if isinstance(e, (list, tuple, np.ndarray)) and _has_other(e):
                return True
        return False
    if _is_xr(x):
        return x.dtype.kind in 'mMSUO' if hasattr(x, 'dtype') else True
    if isinstance(x, (np.datetime64, dict)) or x is None:
        return True
    return False


@reg('arange')
def arange(*a, **k):
    a = [v.item() if isinstance(v, SymArray) else v for v in a]
    a = [int(v) if isinstance(v, (I, B)) else v for v in a]
    k = {q: (int(v) if isinstance(v, (I, B)) else v) for q, v in k.items()}
    if 'dtype' in k:
        kd = kind_of_dtype(k['dtype'])
        k['dtype'] = DT[kd]
    if any(isinstance(v, S) for v in a):
        raise Unsupported('arange over symbolic reals')
    return from_nd(np.arange(*a, **k))


@reg('linspace')
def linspace(a, b, num=50, endpoint=True, **k):
    num = int(num)
    if not is_sym(norm(a)) and not is_sym(norm(b)):
        return from_nd(np.linspace(norm(a), norm(b), num, endpoint=endpoint))
    d = num - 1 if endpoint else num
    st = arith('div', arith('sub', b, a), d) if d else 0.0
    return from_list([arith('add', a, arith('mul', st, i)) for i in range(num)])


@reg('eye', 'identity')
def eye(n, *a, **k):
    return from_nd(np.eye(int(n)))


# ---------------------------------------------------------------- structural
def _st(x):
    w = wrap(x)
    return w.fixed()


def _axis(ax):
    if ax is None:
        return None
    if isinstance(ax, (tuple, list)):
        return tuple(int(v) for v in ax)
    return int(ax)


def _r(w, a):
    return SymArray(a, w.kind, None, w.dom)


@reg('reshape')
def reshape(x, *shape, order='C', newshape=None, **k):
    if newshape is not None:
        shape = newshape
    elif 'shape' in k:
        shape = k['shape']
    elif len(shape) == 1:
        shape = shape[0]
    if _is_xr(x):
        x = x.values
    w = _st(x)
    return _r(w, w.a.reshape(_shape(shape), order=order))


@reg('transpose')
def transpose(x, *axes, **k):
    w = wrap(x)
    if 'axes' in k:
        axes = (k['axes'],)
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list, np.ndarray))):
        axes = axes[0]
    if w.n is not None and w.a.ndim == 1:
        return w
    w = w.fixed()
    return _r(w, w.a.transpose(_axis(axes) if axes else None))


def _struct(name):
    rf = getattr(np, name)

    def f(x, *a, **k):
        w = _st(x)
        a = [_axis(v) if isinstance(v, (I, SymArray, np.integer)) else v for v in a]
        return _r(w, rf(w.a, *a, **k))
    F[name] = f


for _n in ('swapaxes', 'moveaxis', 'rollaxis', 'roll', 'flip', 'flipud', 'fliplr', 'expand_dims',
           'broadcast_to', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'rot90', 'diagonal', 'triu', 'tril', 'delete',
           'sliding_window_view'):
    _struct(_n) if hasattr(np, _n) else None


@reg('squeeze')
def squeeze(x, axis=None):
    w = wrap(x)
    if w.n is not None:
        if all(d == 1 for d in w.a.shape[1:]) and axis is None and w.a.shape[0] > 1:
            # a length-one vector would become 0-d: that only matters to shape
            if _c.CTX.decide(zi(to_i(w.n)) != 1) is True:
                return SymArray(w.a.reshape(-1), w.kind, w.n, w.dom)
        w = w.fixed()
    return _r(w, w.a.squeeze(axis))


@reg('ravel')
def ravel(x, order='C'):
    w = wrap(x)
    if w.n is not None and (w.a.ndim == 1 or all(d == 1 for d in w.a.shape[1:])):
        return SymArray(w.a.reshape(-1), w.kind, w.n, w.dom)
    w = w.fixed()
    return _r(w, w.a.reshape(-1, order=order))


@reg('tile')
def tile(x, reps):
    w = _st(x)
    if isinstance(reps, (list, tuple)):
        reps = tuple(int(v) for v in reps)
    else:
        reps = _shape(reps)
    return _r(w, np.tile(w.a, reps))


@reg('repeat')
def repeat(x, repeats, axis=None):
    w = _st(x)
    r = wrap(repeats)
    rr = r.to_numpy() if not r.symbolic() else np.array([int(v) for v in r.a.reshape(-1)])
    return _r(w, np.repeat(w.a, rr if rr.ndim else int(rr), axis=axis))


@reg('stack')
def _stackf(arrays, axis=0, **k):
    return stack(list(arrays), axis)


@reg('concatenate', 'concat')
def concatenate(arrays, axis=0, **k):
    parts = [wrap(a) for a in arrays]
    if any(p.n is not None for p in parts):
        if axis in (0, None) and len(parts) == 2 and all(p.a.ndim == parts[0].a.ndim for p in parts):
            return _cat2(parts[0], parts[1])
        parts = [p.fixed() for p in parts]
    kd = join_kind([p.kind for p in parts if p.a.size] or [p.kind for p in parts])
    if axis is None:
        parts = [_r(p, p.a.reshape(-1)) for p in parts]
        axis = 0
    return SymArray(np.concatenate([p.as_kind(kd).a for p in parts], axis=axis), kd)


def _cat2(x, y):
    nx = zi(to_i(x.n)) if x.n is not None else z3.IntVal(x.a.shape[0])
    ny = zi(to_i(y.n)) if y.n is not None else z3.IntVal(y.a.shape[0])
    if x.a.shape[1:] != y.a.shape[1:]:
        raise Unsupported('concatenate of different shapes')
    if x.a.ndim > 1:
        if not all(d == 1 for d in x.a.shape[1:]):
            raise Unsupported('concatenate of symbolic-length matrices')
        r = _cat2(SymArray(x.a.reshape(-1), x.kind, x.n), SymArray(y.a.reshape(-1), y.kind, y.n))
        return SymArray(r.a.reshape((-1,) + x.a.shape[1:]), r.kind, r.n)
    kd = join_kind([x.kind, y.kind])
    x, y = x.as_kind(kd), y.as_kind(kd)
    mx, my = x.a.shape[0], y.a.shape[0]
    out = np.empty(mx + my, dtype=object)
    dflt = {'f': 0.0, 'i': 0, 'b': False}[kd]
    for k in range(mx + my):
        v = dflt
        for s in range(mx, -1, -1):           # x has length s, so y starts there
            if 0 <= k - s < my:
                v = s_ite(_zb(nx == s), y.a[k - s], v)
        if k < mx:
            v = s_ite(_zb(z3.IntVal(k) < nx), x.a[k], v)
        out[k] = v
    return SymArray(out, kd, mkI(z3.simplify(nx + ny)), dom=(max(x.dom, y.dom) if x.dom and y.dom else None))


def _zb(e):
    e = z3.simplify(e)
    return True if z3.is_true(e) else False if z3.is_false(e) else e


@reg('vstack')
def vstack(a, **k):
    return concatenate([F['atleast_2d'](x) for x in a], 0)


@reg('hstack')
def hstack(a, **k):
    a = [wrap(x) for x in a]
    return concatenate(a, 0 if a[0].a.ndim <= 1 else 1)


@reg('append')
def append(a, v, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(v)])
    return concatenate([a, v], axis)


@reg('insert')
def insert(a, i, v, axis=None):
    w, x = _st(a), _st(v)
    kd = w.kind
    return SymArray(np.insert(w.a, int(i), x.as_kind(kd).a if x.a.ndim else x.as_kind(kd).a[()], axis=axis), kd)


@reg('split', 'array_split')
def split(x, n, axis=0):
    w = _st(x)
    return [_r(w, p) for p in np.array_split(w.a, n, axis=axis)]


@reg('broadcast_arrays')
def broadcast_arrays(*a, **k):
    ws = [_st(x) for x in a]
    return [_r(w, b) for w, b in zip(ws, np.broadcast_arrays(*[w.a for w in ws]))]


@reg('finfo')
def finfo(t=float):
    try:
        return np.finfo(t)
    except (ValueError, TypeError):
        return np.finfo(float)


@reg('meshgrid')
def meshgrid(*a, **k):
    ws = [_st(x) for x in a]
    return [_r(w, b) for w, b in zip(ws, np.meshgrid(*[w.a for w in ws], **k))]


@reg('take')
def take(x, idx, axis=None, **k):
    w = wrap(x)
    if axis is None:
        return ravel(w)[idx]
    axis = axis % w.a.ndim
    return w[(slice(None),) * axis + (idx,)]


@reg('take_along_axis')
def take_along_axis(x, idx, axis):
    w, i = _st(x), _st(idx)
    axis = axis % w.a.ndim
    out = np.empty(i.a.shape, dtype=object)
    for co in np.ndindex(i.a.shape):
        line = tuple(slice(None) if d == axis else (c if w.a.shape[d] > 1 else 0) for d, c in enumerate(co))
        out[co] = norm(SymArray(w.a[line], w.kind)[i.a[co]])
    return SymArray(out, w.kind)


@reg('ndim')
def ndim(x):
    return wrap(x).ndim


@reg('shape')
def shape(x):
    return wrap(x).shape


@reg('size')
def size(x, axis=None):
    w = wrap(x)
    return w.size if axis is None else w.shape[axis]


# ---------------------------------------------------------------- reductions
def _reduce(x, axis, keepdims, fn, k=None, empty=None, where=None):
    s = norm(x)
    if s is not None:
        x = from_scalar(s)
    w = wrap(x)
    if w.n is not None:
        if w.a.ndim == 1 or axis == 0:
            # elements past the length do not count
            nn = zi(to_i(w.n))
            rows = []
            sub = w.a.reshape(w.a.shape[0], -1)
            res = []
            for c in range(sub.shape[1]):
                res.append(fn([(sub[i, c], _zb(z3.IntVal(i) < nn)) for i in range(sub.shape[0])], True))
            if w.a.ndim == 1:
                r = res[0]
                return r if is_sym(r) else unwrap_scalar(r)
            o = np.empty(len(res), dtype=object)
            o[:] = res
            return SymArray(o.reshape(w.a.shape[1:]), k or join_kind([kind(v) for v in res]))
        w = w.fixed()
    a = w.a
    if axis is None:
        els = [(v, True) for v in a.reshape(-1)]
        if not els and empty is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        r = fn(els, False) if els else empty
        if keepdims:
            return _filled((1,) * a.ndim, r, k or kind(r))
        return r if is_sym(r) else unwrap_scalar(norm(r))
    axes = (axis,) if not isinstance(axis, (tuple, list)) else tuple(axis)
    axes = tuple(int(v) % a.ndim if -a.ndim <= int(v) < a.ndim else _axerr(v, a.ndim) for v in axes)
    rest = [d for d in range(a.ndim) if d not in axes]
    b = a.transpose(rest + list(axes)).reshape([a.shape[d] for d in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for co in np.ndindex(out.shape):
        els = [(v, True) for v in b[co]]
        if not els and empty is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        out[co] = norm(fn(els, False)) if els else empty
    fl = list(out.reshape(-1))
    kk = k or (join_kind([kind(v) for v in fl]) if fl else w.kind)
    if keepdims:
        out = out.reshape([1 if d in axes else a.shape[d] for d in range(a.ndim)])
    if out.ndim == 0:
        v = out[()]
        return v if is_sym(v) else unwrap_scalar(v)
    r = SymArray(out, kk)
    return _floats(r) if kk == 'f' else r


def _axerr(v, nd):
    raise np.exceptions.AxisError(v, nd) if hasattr(np, 'exceptions') else IndexError('axis out of bounds')


def _sum(els, guarded):
    if any(g is not True for _, g in els):
        els = [(s_ite(g, v, 0.0 if kind(v) == 'f' else 0), True) for v, g in els]
    vs = [alg.mkI(to_i(v)) if isinstance(v, B) else (int(v) if isinstance(v, bool) else v) for v, _ in els]
    if vs and all(kind(v) == 'i' for v in vs):
        c = sum(v for v in vs if isinstance(v, int))
        sy = [zi(to_i(v)) for v in vs if not isinstance(v, int)]
        if not sy:
            return c
        return mkI(z3.simplify(z3.Sum(sy + [z3.IntVal(c)])))
    r = 0.0
    for v in vs:
        r = arith('add', r, v)
    return r


def _prod(els, guarded):
    r = None
    for v, g in els:
        v = s_ite(g, v, 1.0)
        r = v if r is None else arith('mul', r, v)
    return r


def _red(name, fn, k=None, empty=None):
    def f(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
        if _is_xr(x):
            x = x.values
        axis = axis if axis is None or isinstance(axis, tuple) else _axis(axis)
        if where is not None and where is not True and where is not np._NoValue:
            fillv = empty if empty is not None else initial if initial is not None else 0
            x = F['where'](where, x, fillv)
        r = _reduce(x, axis, bool(keepdims), fn, k, empty if empty is not None else (
            initial if initial is not np._NoValue else None))
        if initial is not None and initial is not np._NoValue:
            comb = {'sum': 'add', 'nansum': 'add', 'prod': 'mul', 'nanprod': 'mul'}.get(name)
            if comb:
                r = elementwise2(comb, r, initial, comb) if norm(r) is None else arith(comb, r, initial)
            elif name in ('max', 'min', 'nanmax', 'nanmin'):
                g = lambda v: alg.s_minmax(v, norm(initial), 'max' in name, 'nan' not in name)
                r = g(norm(r)) if norm(r) is not None else elementwise1(g, r)
            else:
                raise Unsupported('%s with initial' % name)
        if dtype is not None:
            kd = kind_of_dtype(dtype)
            r = cast(r, kd) if norm(r) is not None else r.astype(dtype)
        if out is not None:
            out[...] = r
            return out
        return r
    F[name] = f
    return f


def _bsum(els, guarded):
    return _sum(els, guarded)


_red('sum', _sum, None, 0)
_red('prod', _prod, None, 1)
_red('any', lambda els, g: mkB(b_or(*[b_and(_bz(v), gg) for v, gg in els])), 'b', False)
_red('all', lambda els, g: mkB(b_and(*[b_or(_bz(v), b_not(gg)) for v, gg in els])), 'b', True)


def _fold_minmax(mx, skip=False):
    def f(els, guarded):
        r, ok = None, None
        for v, g in els:
            if g is not True:
                if r is None:
                    r, ok = v, g
                else:
                    m = alg.s_minmax(r, v, mx, not skip)
                    r = s_ite(b_and(g, ok), m, s_ite(g, v, r))
                    ok = b_or(ok, g)
            else:
                r = v if r is None else alg.s_minmax(r, v, mx, not skip)
                ok = True
        return r
    return f


_red('max', _fold_minmax(True))
F['amax'] = F['max']
_red('min', _fold_minmax(False))
F['amin'] = F['min']
_red('nanmax', _fold_minmax(True, True))
_red('nanmin', _fold_minmax(False, True))


def _mean(els, guarded):
    s = _sum(els, guarded)
    n = len(els) if not guarded else mkI(z3.simplify(z3.Sum([z3.If(alg.b_bool(g), 1, 0) for _, g in els])))
    return arith('div', s, n)


_red('mean', _mean, 'f', math.nan)
F['average'] = lambda x, axis=None, weights=None, **k: (F['mean'](x, axis=axis) if weights is None else
                                                         elementwise2('div', F['sum'](x * wrap(weights), axis=axis),
                                                                      F['sum'](wrap(weights), axis=axis)))


def _nansum(els, guarded):
    return _sum([(s_ite(alg.is_nan(v), 0.0, v) if kind(v) == 'f' else v, g) for v, g in els], guarded)


def _nanmean(els, guarded):
    s = _nansum(els, guarded)
    n = _sum([(mkI(z3.If(alg.b_bool(b_not(alg.is_nan(v))), z3.IntVal(1), z3.IntVal(0))) if not isinstance(
        alg.is_nan(v), bool) else int(not alg.is_nan(v)), g) for v, g in els], guarded)
    return alg.s_div(alg.to_s(s), alg.to_s(n))


_red('nansum', _nansum, None, 0.0)
_red('nanmean', _nanmean, 'f', math.nan)
_red('count_nonzero', lambda els, g: _sum([(mkB(_bz(v)), gg) for v, gg in els], g), 'i', 0)


def _var(els, guarded):
    m = _mean(els, guarded)
    return _mean([(arith('mul', arith('sub', v, m), arith('sub', v, m)), g) for v, g in els], guarded)


_red('var', _var, 'f', math.nan)
_red('std', lambda e, g: alg.s_sqrt(_var(e, g)), 'f', math.nan)


def _nanvar(els, guarded):
    m = _nanmean(els, guarded)
    sq = [(s_ite(alg.is_nan(v), math.nan, arith('mul', arith('sub', v, m), arith('sub', v, m))), g) if kind(v) == 'f' else
          (arith('mul', arith('sub', v, m), arith('sub', v, m)), g) for v, g in els]
    return _nanmean(sq, guarded)


_red('nanvar', _nanvar, 'f', math.nan)
_red('nanstd', lambda e, g: alg.s_sqrt(_nanvar(e, g)), 'f', math.nan)
_red('ptp', lambda e, g: arith('sub', _fold_minmax(True)(e, g), _fold_minmax(False)(e, g)))


def _argred(mx):
    def f(els, guarded):
        best, bi = None, 0
        for i, (v, g) in enumerate(els):
            if best is None:
                best, bi = v, 0
                continue
            c = _bz(arith('gt' if mx else 'lt', v, best))
            if g is not True:
                c = b_and(c, g)
            if kind(v) == 'f' and kind(best) == 'f':
                nb, nv = alg.is_nan(best), alg.is_nan(v)
                if nb is not False or nv is not False:
                    c = b_and(b_not(nb), b_or(nv, c))
            best = s_ite(c, v, best)
            bi = s_ite(c, i, bi)
        return bi
    return f


_red('argmax', _argred(True), 'i')
_red('argmin', _argred(False), 'i')


def _nanarg(mx):
    def f(x, axis=None, **k):
        w = wrap(x)
        bad = -math.inf if mx else math.inf
        w2 = w.mapped(lambda v: s_ite(alg.is_nan(v), bad, v))
        return F['argmax' if mx else 'argmin'](w2, axis=axis)
    return f


F['nanargmax'], F['nanargmin'] = _nanarg(True), _nanarg(False)


def _accum(x, axis, fn):
    w = _st(x)
    if axis is None:
        w = ravel(w)
        axis = 0
    if w.a.shape[axis] == 0:
        return w
    a = np.moveaxis(w.a, axis, 0)
    out = np.empty(a.shape, dtype=object)
    out[0] = a[0]
    for i in range(1, a.shape[0]):
        for co in np.ndindex(a.shape[1:]):
            out[(i,) + co] = norm(fn(out[(i - 1,) + co], a[(i,) + co]))
    o = np.moveaxis(out, 0, axis)
    return SymArray(o, join_kind([kind(v) for v in o.reshape(-1)]))


@reg('cumsum')
def cumsum(x, axis=None, dtype=None, out=None):
    if _is_xr(x):
        r = x.copy()
        r.data = cumsum(x.data, axis)
        return r
    w = wrap(x)
    if w.kind == 'b':
        w = w.as_kind('i')
    if w.n is not None and w.a.ndim == 1:
        r = _accum(SymArray(w.a, w.kind), 0, lambda a, b: arith('add', a, b))
        return SymArray(r.a, r.kind, w.n)
    return _accum(w, axis, lambda a, b: arith('add', a, b))


@reg('nancumsum')
def nancumsum(x, axis=None, **k):
    w = wrap(x).mapped(lambda v: s_ite(alg.is_nan(v), 0.0, v))
    return cumsum(w, axis)


@reg('cumprod')
def cumprod(x, axis=None, **k):
    return _accum(wrap(x), axis, lambda a, b: arith('mul', a, b))


@reg('diff')
def diff(x, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    w = _st(x)
    axis = axis % w.a.ndim

    def end(v):
        e = _st(v)
        if e.a.ndim == 0:
            sh = list(w.a.shape)
            sh[axis] = 1
            e = _filled(sh, e.a[()], e.kind)
        return e
    parts = []
    if prepend is not np._NoValue:
        parts.append(end(prepend))
    parts.append(w)
    if append is not np._NoValue:
        parts.append(end(append))
    if len(parts) > 1:
        w = concatenate(parts, axis)
    for _ in range(n):
        hi = [slice(None)] * w.a.ndim
        lo = list(hi)
        hi[axis], lo[axis] = slice(1, None), slice(None, -1)
        a, b = w[tuple(hi)], w[tuple(lo)]
        w = elementwise2(U2['logical_xor'], a, b, 'logical_xor') if w.kind == 'b' else elementwise2('sub', a, b)
    return w


@reg('gradient')
def gradient(f, *vargs, axis=None, **k):
    w = _st(f)
    if w.a.ndim != 1 and axis is None:
        raise Unsupported('gradient of nd array')
    axis = 0 if axis is None else axis % w.a.ndim
    a = np.moveaxis(w.a, axis, 0)
    n = a.shape[0]
    if vargs:
        x = wrap(vargs[0])
        x = x.a if x.a.ndim else None
        h = None if x is not None else norm(vargs[0])
    else:
        x, h = None, 1.0
    out = np.empty(a.shape, dtype=object)
    for co in np.ndindex(a.shape[1:]):
        for i in range(n):
            def A(j):
                return a[(j,) + co]

            def d(i, j):
                den = arith('sub', x[j], x[i]) if x is not None else arith('mul', h, j - i)
                return arith('div', arith('sub', A(j), A(i)), den)
            if i == 0:
                r = d(0, 1)
            elif i == n - 1:
                r = d(n - 2, n - 1)
            elif x is None:
                r = d(i - 1, i + 1)
            else:
                h1, h2 = arith('sub', x[i], x[i - 1]), arith('sub', x[i + 1], x[i])
                t = arith('add', arith('mul', h1, d(i, i + 1)), arith('mul', h2, d(i - 1, i)))
                r = arith('div', t, arith('add', h1, h2))
            out[(i,) + co] = r
    return SymArray(np.moveaxis(out, 0, axis), 'f')


@reg('trapz', 'trapezoid')
def trapz(y, x=None, dx=1.0, axis=-1):
    y = wrap(y)
    if x is None:
        d = dx
    else:
        x = wrap(x)
        d = diff(x, axis=axis) if x.a.ndim > 1 else diff(x)
        if d.a.ndim == 1 and y.a.ndim > 1:
            sh = [1] * y.a.ndim
            sh[axis] = d.a.shape[0]
            d = reshape(d, tuple(sh))
    hi = [slice(None)] * y.a.ndim
    lo = list(hi)
    hi[axis], lo[axis] = slice(1, None), slice(None, -1)
    return F['sum'](elementwise2('mul', elementwise2('add', y[tuple(hi)], y[tuple(lo)]), d) * 0.5, axis=axis)


# ---------------------------------------------------------------- selection
@reg('where')
def where(cond, x=None, y=None):
    if x is None and y is None:
        return nonzero(cond)
    for o in (cond, x, y):
        if _is_pint(o):
            return NotImplemented
    c, a, b = [(from_scalar(norm(v)) if norm(v) is not None else wrap(v)) for v in (cond, x, y)]
    n = None
    for w in (c, a, b):
        if w.n is not None:
            n = w.n
    if n is not None and not all((w.n is not None) or w.a.ndim == 0 for w in (c, a, b)):
        c, a, b = c.fixed(), a.fixed(), b.fixed()
        n = None
    ca, aa, ba = np.broadcast_arrays(c.a, a.a, b.a)
    k = join_kind([a.kind, b.kind])
    out = np.empty(ca.shape, dtype=object)
    fo = out.reshape(-1)
    fc, fa, fb = ca.reshape(-1), aa.reshape(-1), ba.reshape(-1)
    for i in range(len(fo)):
        fo[i] = cast(s_ite(_bz(fc[i]), fa[i], fb[i]), k)
    return SymArray(out, k, n)


@reg('select')
def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


@reg('piecewise')
def piecewise(x, conds, funcs):
    r = 0.0
    fs = list(funcs)
    if len(fs) == len(conds) + 1:
        r = fs[-1](x) if callable(fs[-1]) else fs[-1]
    for c, f in reversed(list(zip(conds, fs))):
        r = where(c, f(x) if callable(f) else f, r)
    return r


@reg('choose')
def choose(i, choices, **k):
    r = choices[-1]
    for j in range(len(choices) - 2, -1, -1):
        r = where(elementwise2('eq', i, j), choices[j], r)
    return r


@reg('nonzero')
def nonzero(x):
    w = wrap(x)
    if not w.symbolic():
        return tuple(from_nd(v) for v in np.nonzero(w.to_numpy()))
    if w.a.ndim == 1:
        return (where_vec(w.mapped(lambda v: mkB(_bz(v)), 'b') if w.kind != 'b' else w),)
    w = w.fixed()
    flat = where_vec(SymArray(w.a.reshape(-1), w.kind))
    out = []
    sh = w.a.shape
    st = 1
    strides = []
    for d in reversed(sh):
        strides.insert(0, st)
        st *= d
    for d, s in zip(sh, strides):
        out.append(SymArray(flat.mapped(lambda v: arith('mod', arith('floordiv', v, s), d)).a, 'i', flat.n, dom=d))
    return tuple(out)


@reg('flatnonzero')
def flatnonzero(x):
    return nonzero(ravel(wrap(x)))[0]


@reg('argwhere')
def argwhere(x):
    w = wrap(x)
    if w.a.ndim == 1:
        v = nonzero(w)[0]
        return SymArray(v.a.reshape(-1, 1), 'i', v.n, v.dom)
    vs = nonzero(w)
    return SymArray(np.stack([v.a for v in vs], axis=-1), 'i', vs[0].n)


@reg('extract')
def extract(c, x):
    return ravel(x)[ravel(c)]


@reg('compress')
def compress(c, x, axis=None, **k):
    if isinstance(c, SymArray) and not isinstance(x, SymArray):
        pass
    return wrap(x)[wrap(c)] if axis in (None, 0) else _uns('compress')


@reg('putmask')
def putmask(a, mask, vals):
    a[...] = where(mask, vals, a)


@reg('copyto')
def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = F['where'](where, src, dst)


@reg('place')
def place(a, mask, vals):
    a[mask] = vals if norm(vals) is not None else wrap(vals)


@reg('clip')
def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = x
    if lo is not None:
        r = elementwise2(U2['maximum'], r, lo)
    if hi is not None:
        r = elementwise2(U2['minimum'], r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


@reg('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    r = elementwise1(lambda v: _nan2num(v, nan, posinf, neginf), x)
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return r


@reg('round', 'around', 'round_')
def round_(x, decimals=0, out=None):
    if decimals == 0:
        return elementwise1(alg.s_round, x)
    sc = 10.0 ** decimals
    return elementwise1(lambda v: arith('div', alg.s_round(arith('mul', v, sc)), sc) if is_sym(v) else
                        float(np.round(v, decimals)), x)


@reg('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = F['absolute'](elementwise2('sub', a, b))
    lim = elementwise2('add', elementwise2('mul', F['absolute'](b), rtol), atol)
    r = elementwise2('le', d, lim)
    if equal_nan:
        r = elementwise2(U2['logical_or'], r, elementwise2(U2['logical_and'], F['isnan'](a), F['isnan'](b)))
    return r


@reg('allclose')
def allclose(a, b, **k):
    return F['all'](isclose(a, b, **k))


@reg('array_equal')
def array_equal(a, b, **k):
    a, b = wrap(a), wrap(b)
    if a.fixed().a.shape != b.fixed().a.shape:
        return False
    return F['all'](elementwise2('eq', a.fixed(), b.fixed()))


@reg('matmul', 'dot')
def matmul(a, b):
    a, b = _st(a), _st(b)
    if a.a.ndim == 0 or b.a.ndim == 0:
        return elementwise2('mul', a, b)
    if b.a.ndim == 1:
        return F['sum'](elementwise2('mul', a, b), axis=-1)
    if a.a.ndim == 1:
        return F['sum'](elementwise2('mul', SymArray(a.a[:, None], a.kind), b), axis=0)
    x = SymArray(a.a[..., :, :, None], a.kind)
    y = SymArray(b.a[..., None, :, :], b.kind)
    return F['sum'](elementwise2('mul', x, y), axis=-2)


@reg('outer')
def outer(a, b):
    a, b = ravel(a), ravel(b)
    return elementwise2('mul', SymArray(a.a[:, None], a.kind), b)


@reg('einsum')
def einsum(sub, *ops, **k):
    sub = sub.replace(' ', '')
    ins, _, out = sub.partition('->')
    ins = ins.split(',')
    if '...' in sub:
        free = [ch for ch in 'ZYXWVUTSRQPO' if ch not in sub]
        nd = [_st(o).a.ndim - len(i.replace('...', '')) for i, o in zip(ins, ops)]
        ell = ''.join(free[:builtins.max(nd + [0])])
        if any('...' in i and n not in (0, len(ell)) for i, n in zip(ins, nd)):
            raise Unsupported('einsum broadcasting an ellipsis')
        ins = [i.replace('...', ell if n else '') for i, n in zip(ins, nd)]
        if '->' in sub:
            out = out.replace('...', ell)
    if not out and '->' not in sub:
        import collections
        cnt = collections.Counter(''.join(ins))
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    letters = out + ''.join(sorted(set(''.join(ins)) - set(out)))
    r = None
    for s, o in zip(ins, ops):
        w = _st(o)
        order = [s.index(c) for c in letters if c in s]
        a = w.a.transpose(order).reshape([w.a.shape[s.index(c)] if c in s else 1 for c in letters])
        t = SymArray(a, w.kind)
        r = t if r is None else elementwise2('mul', r, t)
    for _ in range(len(letters) - len(out)):
        r = F['sum'](r, axis=-1)
    return r


# ---------------------------------------------------------------------- sets
def _member(v, w):
    """is scalar v in vector w"""
    nn = zi(to_i(w.n)) if w.n is not None else None
    cs = []
    for i, e in enumerate(w.a.reshape(-1)):
        c = _bz(arith('eq', v, e))
        if nn is not None:
            c = b_and(c, _zb(z3.IntVal(i) < nn))
        cs.append(c)
    return b_or(*cs)


@reg('isin', 'in1d')
def isin(x, y, invert=False, **k):
    y = ravel(y)
    return elementwise1(lambda v: mkB(b_not(_member(v, y)) if invert else _member(v, y)), x, 'b')


def _dom(*ws):
    d = 0
    for w in ws:
        if w.dom is None:
            c = [v for v in w.a.reshape(-1)]
            if any(is_sym(v) for v in c):
                return None
            d = builtins.max([d] + [int(v) + 1 for v in c])
            if any(v < 0 for v in c):
                return None
        else:
            d = builtins.max(d, w.dom)
    return d


def _setop(x, y, f):
    x, y = ravel(x), ravel(y)
    if not x.symbolic() and not y.symbolic():
        return None
    d = _dom(x, y)
    if d is None:
        return ()
    o = np.empty(d, dtype=object)
    for v in range(d):
        o[v] = mkB(f(_member(v, x), _member(v, y)))
    return where_vec(SymArray(o, 'b'))


def _mkset(name, f):
    def g(x, y, assume_unique=False, **k):
        r = _setop(wrap(x), wrap(y), f)
        if isinstance(r, tuple):
            # no known bound of the values: by sorting
            if name == 'union1d':
                return unique(concatenate([ravel(x), ravel(y)]))
            ux, uy = unique(x), unique(y)
            if name == 'intersect1d':
                return ux[F['isin'](ux, uy)]
            a = ux[F['logical_not'](F['isin'](ux, uy))]
            if name == 'setdiff1d':
                return a
            return sort(concatenate([a, uy[F['logical_not'](F['isin'](uy, ux))]]).fixed())
        if r is None:
            return from_nd(getattr(np, name)(wrap(x).to_numpy(), wrap(y).to_numpy()))
        return r
    F[name] = g


_mkset('setdiff1d', lambda a, b: b_and(a, b_not(b)))
_mkset('setxor1d', lambda a, b: b_or(b_and(a, b_not(b)), b_and(b, b_not(a))))
_mkset('union1d', lambda a, b: b_or(a, b))
_mkset('intersect1d', lambda a, b: b_and(a, b))


@reg('unique')
def unique(x, **k):
    w = ravel(wrap(x))
    if not w.symbolic():
        r = np.unique(w.to_numpy(), **k)
        return tuple(from_nd(v) for v in r) if isinstance(r, tuple) else from_nd(r)
    if k:
        raise Unsupported('unique with options')
    if w.kind == 'i' and w.dom:
        r = _setop(w, w, lambda a, b: a)
        if not isinstance(r, tuple):
            return r
    srt = sort(w)
    keep = [True] + [_bz(arith('ne', srt.a[i], srt.a[i - 1])) for i in range(1, srt.a.shape[0])]
    o = np.empty(len(keep), dtype=object)
    o[:] = [mkB(c) for c in keep]
    return srt[SymArray(o, 'b')]


@reg('sort')
def sort(x, axis=-1, **k):
    w = _st(x)
    a = np.moveaxis(w.a.copy(), axis, -1)
    n = a.shape[-1]
    for co in np.ndindex(a.shape[:-1]):
        for i in range(n):
            for j in range(n - 1 - i):
                u, v = a[co + (j,)], a[co + (j + 1,)]
                c = _bz(arith('gt', u, v))
                if w.kind == 'f':       # missing values last
                    c = b_or(c, b_and(alg.is_nan(u), b_not(alg.is_nan(v))))
                a[co + (j,)], a[co + (j + 1,)] = s_ite(c, v, u), s_ite(c, u, v)
    return SymArray(np.moveaxis(a, -1, axis), w.kind, None, w.dom)


@reg('argsort')
def argsort(x, axis=-1, **k):
    w = _st(x)
    if not w.symbolic():
        return from_nd(np.argsort(w.to_numpy(), axis=axis, kind='stable'))
    if w.a.ndim != 1:
        raise Unsupported('argsort nd')
    n = w.a.shape[0]
    rank = []
    for i in range(n):
        cs = []
        for j in range(n):
            if j != i:
                c = _bz(arith('lt' if j > i else 'le', w.a[j], w.a[i]))
                cs.append((mkB(c), True))
        rank.append(_sum(cs, False) if cs else 0)
    o = np.empty(n, dtype=object)
    for k_ in range(n):
        r = n - 1
        for i in range(n - 2, -1, -1):
            r = s_ite(_bz(arith('eq', rank[i], k_)), i, r)
        o[k_] = r
    return SymArray(o, 'i', None, n)


@reg('searchsorted')
def searchsorted(a, v, side='left', **k):
    w = ravel(wrap(a)).fixed()
    op = 'lt' if side == 'left' else 'le'
    return elementwise1(lambda x: _sum([(arith(op, e, x), True) for e in w.a], False) if len(w.a) else 0, v, 'i')


@reg('digitize')
def digitize(x, bins, right=False):
    b = ravel(wrap(bins)).fixed()
    inc = not b.symbolic() and (len(b.a) < 2 or b.a[-1] >= b.a[0])
    op = ('lt' if right else 'le') if inc else ('ge' if right else 'gt')
    if inc:
        return elementwise1(lambda v: _sum([(arith(op, e, v), True) for e in b.a], False), x, 'i')
    return elementwise1(lambda v: _sum([(arith('gt' if not right else 'ge', e, v), True) for e in b.a], False), x, 'i')


@reg('interp')
def interp(x, xp, fp, left=None, right=None, **k):
    xs, fs = ravel(wrap(xp)), ravel(wrap(fp))
    n = xs.a.shape[0]
    L = fs.a[0] if left is None else left
    R = fs.a[-1] if right is None else right

    def f(v):
        r = fs.a[n - 1]
        for i in range(n - 2, -1, -1):
            sl = arith('div', arith('sub', fs.a[i + 1], fs.a[i]), arith('sub', xs.a[i + 1], xs.a[i]))
            seg = arith('add', fs.a[i], arith('mul', sl, arith('sub', v, xs.a[i])))
            r = s_ite(_bz(arith('lt', v, xs.a[i + 1])), seg, r)
        r = s_ite(_bz(arith('lt', v, xs.a[0])), L, r)
        r = s_ite(_bz(arith('gt', v, xs.a[n - 1])), R, r)
        if kind(v) == 'f':
            r = s_ite(alg.is_nan(v), math.nan, r)
        return cast(r, 'f')
    return elementwise1(f, x, 'f')


_GRID = {}


def grid_interpolator(real):
    """multilinear interpolation on a rectangular grid (scipy's class) for symbolic values and coordinates"""
    if real in _GRID:
        return _GRID[real]

    class RegularGridInterpolator:
        def __init__(self, points, values, method='linear', bounds_error=True, fill_value=math.nan, **k):
            if method != 'linear' or k:
                raise Unsupported('interpolation method')
            pts = [ravel(wrap(p)) for p in points]
            if any(is_sym(v) for p in pts for v in p.a):
                raise Unsupported('symbolic interpolation grid')
            self.grid = tuple(np.array([float(v) for v in p.a]) for p in pts)
            for g in self.grid:
                if not (np.all(np.diff(g) > 0) or np.all(np.diff(g) < 0)):
                    raise ValueError('points must be strictly ascending or descending')
            self.v = wrap(values).fixed()
            if self.v.a.shape != tuple(len(g) for g in self.grid):
                raise ValueError('%d points and %s values' % (len(self.grid), self.v.a.shape))
            self.bounds_error, self.fill_value = bounds_error, fill_value

        def __call__(self, xi, method=None):
            if method not in (None, 'linear'):
                raise Unsupported('interpolation method')
            nd = len(self.grid)
            if isinstance(xi, tuple):
                cs = [wrap(x).fixed() if not np.isscalar(x) else wrap(x) for x in xi]
            else:
                w = wrap(xi).fixed()
                cs = [SymArray(w.a[..., i], w.kind) for i in range(nd)]
            if len(cs) != nd:
                raise ValueError('the requested sample points have the wrong dimension')
            cs = np.broadcast_arrays(*[c.a for c in cs])
            out = np.empty(cs[0].shape, dtype=object)
            for ix in np.ndindex(*out.shape):
                out[ix] = self.at([c[ix] for c in cs])
            return SymArray(out, 'f')

        def at(self, x):
            bad = False
            ws = []
            for v, g in zip(x, self.grid):
                if kind(v) == 'f':
                    bad = b_or(bad, _bz(alg.is_nan(v)) if is_sym(v) else bool(np.isnan(float(v))))
                s = np.argsort(g)
                o, w = g[s], [0.0] * len(g)
                out = b_or(_bz(arith('lt', v, float(o[0]))), _bz(arith('gt', v, float(o[-1]))))
                if self.bounds_error and mkB(out):
                    raise ValueError('one of the requested xi is out of bounds')
                bad = b_or(bad, out)
                for i in range(len(o) - 2, -1, -1):
                    t = arith('div', arith('sub', v, float(o[i])), float(o[i + 1] - o[i]))
                    cell = [0.0] * len(g)
                    cell[s[i]], cell[s[i + 1]] = arith('sub', 1.0, t), t
                    if i == len(o) - 2:
                        w = cell
                    else:
                        c = _bz(arith('lt', v, float(o[i + 1])))
                        w = [s_ite(c, p, q) for p, q in zip(cell, w)]
                ws.append(w)
            r = 0.0
            for ix in np.ndindex(*self.v.a.shape):
                t = self.v.a[ix]
                for w, i in zip(ws, ix):
                    t = arith('mul', t, w[i])
                r = arith('add', r, t)
            return cast(s_ite(bad, self.fill_value, r), 'f')
    _GRID[real] = RegularGridInterpolator
    return RegularGridInterpolator


def _edges(bins, rng, w):
    if isinstance(bins, (int, np.integer)):
        if rng is None:
            raise Unsupported('histogram without a range')
        return np.linspace(float(rng[0]), float(rng[1]), int(bins) + 1)
    return wrap(bins).to_numpy().astype(float)


@reg('histogram')
def histogram(a, bins=10, range=None, density=None, weights=None, **k):
    w = ravel(wrap(a)).fixed()
    e = _edges(bins, range, w)
    out = np.empty(len(e) - 1, dtype=object)
    wt = None if weights is None else ravel(wrap(weights)).a
    for i in builtins.range(len(e) - 1):
        cs = []
        for j, v in enumerate(w.a):
            c = b_and(_bz(arith('ge', v, float(e[i]))),
                      _bz(arith('le' if i == len(e) - 2 else 'lt', v, float(e[i + 1]))))
            cs.append((mkB(c) if wt is None else s_ite(c, wt[j], 0.0), True))
        out[i] = _sum(cs, False) if cs else 0
    h = SymArray(out, 'i' if wt is None else 'f')
    if density:
        tot = F['sum'](h)
        h = elementwise2('div', elementwise2('div', h, from_nd(np.diff(e))), tot)
    return h, from_nd(e)


@reg('histogram2d')
def histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    x, y = ravel(wrap(x)).fixed(), ravel(wrap(y)).fixed()
    if isinstance(bins, (int, np.integer)):
        bins = (bins, bins)
    bx, by = bins
    ex = _edges(bx, None if range is None else range[0], x)
    ey = _edges(by, None if range is None else range[1], y)

    def inb(v, e, i):
        return b_and(_bz(arith('ge', v, float(e[i]))), _bz(arith('le' if i == len(e) - 2 else 'lt', v, float(e[i + 1]))))
    out = np.empty((len(ex) - 1, len(ey) - 1), dtype=object)
    for i in builtins.range(len(ex) - 1):
        for j in builtins.range(len(ey) - 1):
            out[i, j] = cast(_sum([(mkB(b_and(inb(p, ex, i), inb(q, ey, j))), True)
                                   for p, q in zip(x.a, y.a)], False) if len(x.a) else 0, 'f')
    h = SymArray(out, 'f')
    if density:
        area = np.diff(ex)[:, None] * np.diff(ey)[None, :]
        h = elementwise2('div', elementwise2('div', h, from_nd(area)), F['sum'](h))
    return h, from_nd(ex), from_nd(ey)


@reg('bincount')
def bincount(x, weights=None, minlength=0):
    w = ravel(wrap(x)).fixed()
    d = builtins.max(_dom(w) or 0, minlength)
    return from_list([_sum([(mkB(_bz(arith('eq', e, v))), True) for e in w.a], False) for v in range(d)])


@reg('median')
def median(x, axis=None, keepdims=False, **k):
    w = _st(x)
    if keepdims and axis is not None:
        return F['expand_dims'](median(w, axis), axis)
    if isinstance(axis, tuple):
        if len(axis) != w.a.ndim and len(axis) != 1:
            raise Unsupported('median over several axes')
        axis = None if len(axis) == w.a.ndim else axis[0]
    if w.kind == 'f' and any(alg.is_nan(v) is not False for v in w.a.reshape(-1)):
        return F['where'](F['any'](F['isnan'](w), axis=axis), np.nan, F['nanmedian'](w, axis))
    if axis is None:
        s = sort(ravel(w))
        n = s.a.shape[0]
        return s[n // 2] if n % 2 else arith('mul', arith('add', s.a[n // 2 - 1], s.a[n // 2]), 0.5)
    s = sort(w, axis)
    n = s.a.shape[axis]
    if n % 2:
        return SymArray(np.take(s.a, n // 2, axis=axis), 'f')
    return elementwise2('mul', elementwise2('add', SymArray(np.take(s.a, n // 2 - 1, axis=axis), 'f'),
                                            SymArray(np.take(s.a, n // 2, axis=axis), 'f')), 0.5)


@reg('result_type', 'promote_types')
def result_type(*a):
    ds = []
    for x in a:
        if isinstance(x, (SymArray, Sym)):
            ds.append(x.dtype)
        elif isinstance(x, (bool, int, float)):
            ds.append(np.dtype(type(x)) if not isinstance(x, float) else np.dtype('float64'))
        else:
            ds.append(x)
    return np.result_type(*ds)


@reg('can_cast')
def can_cast(a, b, **k):
    return np.can_cast(a.dtype if hasattr(a, 'dtype') else a, b, **k)


@reg('iscomplexobj')
def iscomplexobj(x):
    return False


@reg('isrealobj')
def isrealobj(x):
    return True


@reg('isscalar')
def isscalar(x):
    return norm(x) is not None and not isinstance(x, np.ndarray)


@reg('apply_along_axis')
def apply_along_axis(fn, axis, x, *a, **k):
    w = _st(x)
    b = np.moveaxis(w.a, axis, -1)
    res = [fn(SymArray(b[co], w.kind), *a, **k) for co in np.ndindex(b.shape[:-1])]
    if norm(res[0]) is not None:
        o = np.empty(b.shape[:-1], dtype=object)
        o.reshape(-1)[:] = [norm(v) for v in res]
        return SymArray(o, join_kind([kind(v) for v in o.reshape(-1)]))
    st = stack(res, 0)
    o = st.a.reshape(b.shape[:-1] + st.a.shape[1:])
    return SymArray(np.moveaxis(o, -1, axis), st.kind)


@reg('vectorize')
def vectorize(fn, *a, **k):
    def g(*args):
        ws = [_st(x) for x in args]
        bs = np.broadcast_arrays(*[w.a for w in ws])
        o = np.empty(bs[0].shape, dtype=object)
        for co in np.ndindex(o.shape):
            o[co] = norm(fn(*[b[co] for b in bs]))
        return SymArray(o, join_kind([kind(v) for v in o.reshape(-1)]))
    return g


@reg('sum_of')
def _sum_of(x):
    return F['sum'](x)


@reg('fill')
def fill(x, v):
    x[...] = v


@reg('array2string', 'array_repr', 'array_str')
def array_repr(a, *x, **k):
    return '<symbolic array>'


@reg('may_share_memory', 'shares_memory')
def shares(a, b, **k):
    return False


@reg('iterable')
def iterable(x):
    return not (norm(x) is not None)


@reg('sinc')
def _sinc(x):
    raise Unsupported('sinc')


@reg('nanpercentile', 'nanquantile', 'polyfit')
def _percentile(*a, **k):
    raise Unsupported('order statistics')


@reg('polyval')
def polyval(p, x):
    r = 0.0
    for c in wrap(p).a:
        r = elementwise2('add', elementwise2('mul', r, x), c) if norm(x) is None else arith(
            'add', arith('mul', r, x), c)
    return r


@reg('unravel_index')
def unravel_index(i, shape, **k):
    out = []
    st = 1
    for d in reversed(_shape(shape)):
        def f(v, st=st, d=d):
            return arith('mod', arith('floordiv', v, st), d)
        out.insert(0, elementwise1(f, i) if norm(i) is None else f(norm(i)))
        st *= d
    return tuple(out)


for _n in list(U1):
    if _n not in F:
        F[_n] = (lambda fn, k: lambda x, *a, **kw: _dispatch1(fn, x, k))(U1[_n], _U1KIND.get(_n))


def _dispatch1(fn, x, k):
    return elementwise1(fn, x, k)


for _n in list(U2):
    if _n not in F:
        F[_n] = (lambda op, nm: lambda a, b, *x, **kw: elementwise2(op, a, b, nm))(U2[_n], _n)


# --------------------------------------------------------------- random draws
class Random:
    """np.random: arbitrary outcomes constrained by the documented contract"""

    def __init__(self):
        self.__name__ = 'random'

    def seed(self, *a, **k):
        pass

    def default_rng(self, *a, **k):
        return self

    RandomState = Generator = default_rng

    def _perm(self, n):
        """fresh permutation of range(n), n possibly symbolic"""
        c = _c.CTX
        nm = c.fresh('perm')
        nn = norm(n)
        if isinstance(nn, (float, S)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(nn, I):
            mx = upper_bound(nn.e)
            ne = nn.e
        else:
            mx, ne = int(nn), z3.IntVal(int(nn))
        vs = [z3.Int('%s_%d' % (nm, k)) for k in range(mx)]
        # entries at k >= n are the identity, so the whole vector is a permutation of range(mx)
        for k, v in enumerate(vs):
            c.add(z3.And(v >= 0, v < mx, z3.If(z3.IntVal(k) < ne, v < ne, v == k)))
        if mx > 1:
            c.add(z3.Distinct(*vs))
        c.draws.append(('permutation', vs, ne))
        o = np.empty(mx, dtype=object)
        for k, v in enumerate(vs):
            o[k] = I(v)
        return SymArray(o, 'i', mkI(z3.simplify(ne)) if isinstance(nn, I) else None, dom=mx)

    def permutation(self, x):
        if isinstance(x, SymArray) and x.a.ndim == 0:
            x = x.item()
        if norm(x) is not None:
            return self._perm(x)
        w = wrap(x)
        n = w.n if w.n is not None else w.a.shape[0]
        return w[self._perm(n)]

    def shuffle(self, x):
        x[...] = self.permutation(x.copy() if isinstance(x, SymArray) else x)

    def choice(self, a, size=None, replace=True, p=None, **k):
        n = norm(a) if norm(a) is not None else (wrap(a).n or wrap(a).a.shape[0])
        if replace and size is not None:
            raise Unsupported('choice with replacement')
        idx = self._perm(n)
        idx = idx[0] if size is None else idx[0:size]
        return idx if norm(a) is not None else wrap(a)[idx]

    def gamma(self, shape, scale=1.0, size=None):
        c = _c.CTX
        if size is None:
            size = ()
        n = _shape(size) if not (isinstance(size, tuple) and size == ()) else ()
        for v, nm in ((shape, 'shape'), (scale, 'scale')):
            v = norm(v)
            bad = _bz(arith('lt', v, 0)) if v is not None else False
            if c.fork(bad):
                raise ValueError(nm + ' < 0')
        o = np.empty(n, dtype=object)
        vs = []
        for co in np.ndindex(n):
            nm = c.fresh('gamma')
            a = alg._BYKEY.get(('var', nm))
            if a is None:
                a = alg.new_atom('var', nm, lo=0.0)
                alg._BYKEY[('var', nm)] = a
            zero = b_or(_bz(arith('eq', norm(scale), 0)), _bz(arith('eq', norm(shape), 0)))
            v = alg.mkS(alg.patom(a), b_or(alg.is_nan(norm(scale)), alg.is_nan(norm(shape))),
                        alg.is_inf(norm(scale)))
            v = s_ite(zero, 0.0, v)
            vs.append(v)
            o[co] = v
        c.draws.append(('gamma', vs, None))
        c.gammas.append((shape, scale, list(vs)))
        return SymArray(o, 'f') if n != () else vs[0]

    def __getattr__(self, name):
        raise Unsupported('np.random.' + name)


def upper_bound(e, cap=16):
    """a concrete upper bound of an integer expression on this path (solver)"""
    c = _c.CTX
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    for k in range(0, cap + 1):
        if c.decide(z3.simplify(e <= k)) is True:
            return k
    raise Unsupported('unbounded symbolic size')


class _Ndarray(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SymArray))

    def __subclasscheck__(cls, x):
        return issubclass(x, (np.ndarray, SymArray))


class ndarray(metaclass=_Ndarray):
    def __new__(cls, *a, **k):
        return empty(*a, **k)


class NP(types.ModuleType):
    """module proxy bound to the name the code imported numpy under"""

    def __init__(self):
        super().__init__('numpy')
        self.random = Random()
        self.ndarray = ndarray

    def __getattr__(self, name):
        if name in F:
            f = _front(name, F[name])
        else:
            v = getattr(np, name)
            if isinstance(v, type) or not callable(v):
                f = _scalar_type(name, v) if isinstance(v, type) and issubclass(v, np.generic) else v
            else:
                f = _front(name, None)
        setattr(self, name, f)
        return f


_TYPES = {}


def _scalar_type(name, t):
    kd = kind_of_dtype(t)
    if kd is None:
        return t

    class M(type(t)):
        def __instancecheck__(cls, x):
            if isinstance(x, Sym):
                return {'f': S, 'i': I, 'b': B}[kd] is type(x)
            return isinstance(x, t)

    def new(cls, x=0):
        if isinstance(x, (Sym, SymArray)):
            return cast(x, kd) if isinstance(x, Sym) else x.astype(t)
        return t(x)
    try:
        return M(name, (t,), {'__new__': new})
    except TypeError:
        return t


def _concrete(x, depth=0):
    """(is there anything symbolic in x, x with concrete SymArrays as numpy)"""
    if isinstance(x, Sym):
        return True, x
    if isinstance(x, SymArray):
        if x.symbolic():
            return True, x
        return False, x.to_numpy()
    if isinstance(x, (list, tuple)) and depth < 4:
        sy = False
        out = []
        for e in x:
            s, v = _concrete(e, depth + 1)
            sy = sy or s
            out.append(v)
        if sy:
            return True, x
        return False, (type(x)(out) if type(x) in (list, tuple) else x)
    if _is_xr(x) and hasattr(x, 'values') and not callable(x.values):
        v = x.values
        if isinstance(v, SymArray):
            return _concrete(v)
        return False, x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, (Sym, SymArray)) for e in x.reshape(-1)), x
    return False, x


def _wrapres(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in 'fiub':
        return from_nd(r) if True else r
    if isinstance(r, tuple):
        return tuple(_wrapres(v) for v in r) if type(r) is tuple else r
    if isinstance(r, list):
        return [_wrapres(v) for v in r]
    return r


_ALWAYS = {'finfo', 'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'array', 'asarray',
           'arange', 'copy', 'vectorize', 'copyto', 'putmask', 'place', 'fill', 'apply_along_axis', 'ndim', 'shape',
           'size', 'asanyarray', 'ascontiguousarray', 'piecewise', 'may_share_memory', 'shares_memory'}
_VIEW = {'reshape', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'squeeze', 'ravel', 'expand_dims', 'atleast_1d',
         'atleast_2d', 'atleast_3d', 'broadcast_to'}


def _strip_units(o):
    """a DataArray around a Quantity becomes its magnitude, as numpy's conversion does"""
    if _is_xr(o) and hasattr(o, 'variable'):
        d = getattr(o.variable, '_data', None)
        if d is not None and _is_pint(d) and isinstance(d._magnitude, SymArray):
            return d._magnitude
    return o


_XRED = {'sum': 'sum', 'mean': 'mean', 'max': 'max', 'min': 'min', 'amax': 'max', 'amin': 'min', 'any': 'any',
         'all': 'all', 'prod': 'prod', 'var': 'var', 'std': 'std', 'cumsum': 'cumsum', 'cumprod': 'cumprod'}
_XWRAP = {'take', 'repeat', 'swapaxes', 'compress', 'insert', 'delete'}
_XR = set(_XRED) | _XWRAP | {'clip', 'round', 'around', 'squeeze', 'flip'}


def _on_xr(name, impl, da, *a, **k):
    if name in _XRED:
        axis = a[0] if a else k.pop('axis', None)
        kw = {} if axis is None else {'axis': axis}
        if k.get('keepdims') is True:
            kw['keepdims'] = True
        if k.get('ddof'):
            kw['ddof'] = k['ddof']
        if k.get('dtype') is not None:
            da = da.astype(k['dtype'])
        return getattr(da, _XRED[name])(**kw)
    if name == 'clip':
        lo = a[0] if a else k.get('a_min', k.get('min'))
        hi = a[1] if len(a) > 1 else k.get('a_max', k.get('max'))
        return da.clip(lo, hi)
    if name in ('round', 'around'):
        return da.copy(data=impl(da.values, *a, **k))
    if name == 'squeeze':
        return da.squeeze(axis=a[0] if a else k.get('axis'))
    if name == 'flip':
        axis = a[0] if a else k.get('axis')
        axis = range(da.ndim) if axis is None else (axis,) if not isinstance(axis, (tuple, list)) else axis
        axis = {i % da.ndim for i in axis}
        return da[tuple(slice(None, None, -1) if i in axis else slice(None) for i in range(da.ndim))]
    r = impl(da.values, *[o.values if _is_xr(o) else o for o in a], **k)
    return da.__array_wrap__(r) if r.ndim == da.ndim else r


def _front(name, impl):
    rf = getattr(np, name, None)

    def f(*a, **k):
        a = tuple(_strip_units(o) for o in a)
        for o in list(a) + list(k.values()):
            if _is_pint(o) or (isinstance(o, (list, tuple)) and any(_is_pint(e) for e in o)):
                return rf(*a, **k)
        if any(_is_xr(o) for o in a) and isinstance(rf, np.ufunc):
            return rf(*a, **k)
        if name in _ALWAYS:
            return impl(*a, **k)
        sy, ca = _concrete(tuple(a))
        sk, ck = _concrete(tuple(k.values()))
        if not sy and not sk:
            if name in _VIEW and a and isinstance(a[0], SymArray):
                return impl(*a, **k)
            kw = dict(zip(k.keys(), ck))
            if 'dtype' in kw and kind_of_dtype(kw['dtype']) is not None:
                kw['dtype'] = DT[kind_of_dtype(kw['dtype'])]
            if 'out' in kw:
                if impl is None:
                    raise Unsupported('numpy.%s with out=' % name)
                return impl(*a, **k)
            with np.errstate(all='ignore'):
                return _wrapres(rf(*ca, **kw))
        if impl is None:
            raise Unsupported('numpy.' + name)
        a2 = []
        xr_first = None
        for o in a:
            if _is_xr(o) and not isinstance(o, SymArray):
                if xr_first is None and hasattr(o, 'dims'):
                    xr_first = o
            a2.append(o)
        if xr_first is not None and a and a[0] is xr_first and name in _XR:
            # numpy hands these over to the methods of the DataArray
            return _on_xr(name, impl, *a, **k)
        if xr_first is not None and name not in ('where', 'tile', 'stack', 'concatenate', 'select', 'isin'):
            a2 = [o.values if _is_xr(o) else o for o in a2]
        return impl(*a2, **k)
    f.__name__ = name
    f.__qualname__ = name
    f._real = rf
    if isinstance(rf, np.ufunc):
        plain = f

        def f(*a, **k):
            if 'where' in k or 'out' in k or len(a) > rf.nin:
                if len(a) > rf.nin:
                    k = dict(k, out=a[rf.nin])
                    a = a[:rf.nin]
                if not any(_is_pint(o) or _is_xr(o) for o in a):
                    out = k.pop('out', None)
                    if isinstance(out, tuple):
                        out = out[0]
                    k['out'] = None if out is None else (out,)
                    if name == 'power':
                        return array_ufunc(rf, '__call__', a, k)
                    return array_ufunc(rf, '__call__', a, k)
            return plain(*a, **k)

        def method(m):
            def g(*a, **k):
                if m in ('reduce', 'accumulate') and len(a) > 1:
                    k = dict(k, axis=a[1])
                    a = a[:1]
                if m == 'at':
                    return ufunc_at(rf, *a)
                return array_ufunc(rf, m, a, k)
            return g
        for m in ('reduce', 'accumulate', 'outer', 'at'):
            setattr(f, m, method(m))
        f.__name__ = name
        f.__qualname__ = name
        f._real = rf
        f.nin, f.nout = rf.nin, rf.nout
    return f


def ufunc_at(rf, target, idx, val=None):
    """unbuffered in-place operation, element by element"""
    i = wrap(idx)
    if val is None:
        raise Unsupported('ufunc.at without a value')
    if i.kind == 'b':
        i = F['nonzero'](i)
        i = wrap(i[0] if isinstance(i, tuple) else i)
    if i.n is not None or isinstance(idx, tuple):
        raise Unsupported('ufunc.at with this index')
    v = F['broadcast_to'](wrap(val), i.a.shape + target.shape[1:]) if target.ndim == 1 else None
    if v is None:
        raise Unsupported('ufunc.at in several dimensions')
    for co in np.ndindex(i.a.shape):
        k = norm(i.a[co])
        target[k] = array_ufunc(rf, '__call__', (target[k], norm(v.a[co])), {})


SYMNP = NP()


# --------------------------------------------------- builtins as the code sees them
class _TInt(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or isinstance(x, I)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.int)


class sint(builtins.int, metaclass=_TInt):
    def __new__(cls, *a, **k):
        if a and not k and len(a) == 1:
            x = a[0]
            if _is_xr(x) and hasattr(x, 'values'):
                x = x.values
            if isinstance(x, SymArray):
                if x.n is None and x.a.size == 1:
                    x = x.a.reshape(-1)[0]
                else:
                    raise TypeError('only length-1 arrays can be converted to Python scalars')
            if isinstance(x, S):
                bad = b_or(x.nan, x.pinf, x.ninf)
                if bad is not False and _c.CTX.fork(bad):
                    raise ValueError('cannot convert float NaN to integer')
                return alg.cast_int(x)
            if isinstance(x, (I, B)):
                return alg.cast_int(x)
        return builtins.int(*a, **k)


class _TFloat(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, S)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.float)


class sfloat(builtins.float, metaclass=_TFloat):
    def __new__(cls, *a):
        if a:
            x = a[0]
            if _is_xr(x) and hasattr(x, 'values'):
                x = x.values
            if isinstance(x, SymArray) and x.a.size == 1 and x.n is None:
                x = x.a.reshape(-1)[0]
            if isinstance(x, Sym):
                return cast(x, 'f')
        return builtins.float(*a)


class _TBool(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, B))

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.bool)


def slen(x):
    if isinstance(x, SymArray) and x.n is not None:
        return x.n
    return builtins.len(x)


def srange(*a):
    return builtins.range(*[int(v) if is_sym(norm(v)) else (int(v) if isinstance(v, SymArray) else v) for v in a])


def sround(x, n=None):
    if is_sym(x):
        return alg.s_round(x) if n else alg.cast_int(alg.s_round(x))
    return builtins.round(x) if n is None else builtins.round(x, n)


def _smm(mx):
    bf = builtins.max if mx else builtins.min

    def f(*a, **k):
        if k or not a:
            return bf(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and any(is_sym(x) for x in xs) and all(norm(x) is not None for x in xs):
            r = xs[0]
            for x in xs[1:]:
                # python's max/min keep the first of equals, and a NaN where comparisons fail
                c = _bz(arith('gt' if mx else 'lt', x, r))
                r = s_ite(c, norm(x), norm(r))
            return r
        return bf(*a, **k)
    return f


smax, smin = _smm(True), _smm(False)

BUILTINS = {'len': slen, 'int': sint, 'float': sfloat, 'range': srange, 'round': sround, 'max': smax, 'min': smin}


class MathProxy(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(math, name)
        m = {'exp': 'exp', 'log': 'log', 'log10': 'log10', 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'fabs': 'abs',
             'isnan': 'isnan', 'isinf': 'isinf', 'isfinite': 'isfinite', 'tan': 'tan', 'radians': 'radians',
             'log2': 'log2', 'log1p': 'log1p', 'expm1': 'expm1', 'degrees': 'degrees',
             'floor': None, 'ceil': None, 'pow': None, 'gamma': None, 'fsum': None, 'hypot': None, 'isclose': None,
             'trunc': None, 'copysign': None, 'fmod': None, 'prod': None}
        if name not in m:
            return v

        def f(x, *a, **k):
            if name in ('fsum', 'prod'):
                xs = list(x)
                if not any(is_sym(q) for q in xs):
                    return v(xs, *a, **k)
                r = k.get('start', 1) if name == 'prod' else 0.0
                for q in xs:
                    r = arith('mul' if name == 'prod' else 'add', r, q)
                return r
            if isinstance(x, SymArray):
                x = x.item()
            a = tuple(q.item() if isinstance(q, SymArray) else q for q in a)
            if not is_sym(x) and not any(is_sym(q) for q in a):
                return v(x, *a, **k)
            if name == 'hypot':
                return U1['sqrt'](functools.reduce(lambda p, q: arith('add', p, q), [arith('mul', q, q) for q in (x,) + a]))
            if name == 'isclose':
                rel, ab = k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0)
                big = alg.s_minmax(U1['abs'](x), U1['abs'](a[0]), True, True)
                return arith('le', U1['abs'](arith('sub', x, a[0])), alg.s_minmax(arith('mul', rel, big), ab, True, True))
            if name == 'trunc':
                return s_ite(_bz(arith('ge', x, 0)), alg.cast_int(alg.s_floor(alg.to_s(x), False)),
                             alg.cast_int(alg.s_floor(alg.to_s(x), True)))
            if name == 'copysign':
                ab = U1['abs'](x)
                return s_ite(_bz(arith('ge', a[0], 0)), ab, arith('mul', ab, -1.0))
            if name == 'fmod':
                return symmore.fmod(x, a[0])
            if name in ('floor', 'ceil'):
                return alg.cast_int(alg.s_floor(x, name == 'ceil'))
            if name == 'pow':
                return alg.s_pow(x, a[0])
            if name == 'gamma':
                return s_gamma(x)
            if name == 'log' and a:
                return arith('div', alg.s_log(alg.to_s(x)), math.log(a[0]))
            return U1[m[name]](x)
        return f


SYMMATH = MathProxy('math')
from . import symmore  # noqa: E402,F401  (the less common parts of numpy)
