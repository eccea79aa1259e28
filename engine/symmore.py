"""The less common parts of numpy, for code written in another style.

Functions that only move elements run numpy itself on the object array of
symbolic values; the others are written with the arithmetic of alg.
"""
import types
import numpy as np
from . import alg, symnp
from .alg import arith, norm, mkI, s_ite, b_and, b_or, b_not, is_sym, kind, _bz, mkB
from .arr import SymArray, wrap, cast, join_kind
from .ctx import Unsupported
from .symnp import F, reg, _st, _r, elementwise2, concatenate


def _kinds(ws):
    k = join_kind([w.kind for w in ws])
    return k, [w.as_kind(k).a if w.kind != k else w.a for w in ws]


@reg('pad')
def pad(x, width, mode='constant', constant_values=0, **k):
    w = _st(x)
    n = w.a.ndim
    pw = np.broadcast_to(np.asarray(width.to_numpy() if isinstance(width, SymArray) else width), (n, 2)).tolist()
    if mode == 'constant':
        cv = constant_values
        if norm(cv) is None:
            cv = np.broadcast_to(np.asarray(cv), (n, 2)).tolist()
        else:
            cv = [[cv, cv]] * n
        a, kd = w.a, w.kind
        for d in range(n):
            parts = []
            for side, m in ((0, pw[d][0]), (1, pw[d][1])):
                o = np.empty(a.shape[:d] + (int(m),) + a.shape[d + 1:], dtype=object)
                v = cast(norm(cv[d][side]), kd)
                for co in np.ndindex(o.shape):
                    o[co] = v
                parts.append(o)
            a = np.concatenate([parts[0], a, parts[1]], axis=d)
        return SymArray(a, kd)
    if mode in ('edge', 'wrap', 'reflect', 'symmetric', 'empty'):
        idx = np.pad(np.arange(w.a.size).reshape(w.a.shape), pw, mode='edge' if mode == 'empty' else mode, **k)
        return _r(w, w.a.reshape(-1)[idx])
    raise Unsupported('numpy.pad mode ' + str(mode))


def _structural(name, seq=False):
    rf = getattr(np, name)
    if seq:
        def f(xs, *a, **k):
            ws = [_st(x) for x in xs]
            kd, arrs = _kinds(ws)
            return SymArray(rf(arrs, *a, **k), kd)
    else:
        def f(x, *a, **k):
            w = _st(x)
            r = rf(w.a, *a, **k)
            if isinstance(r, (list, tuple)):
                return [_r(w, p) for p in r]
            return _r(w, r)
    F[name] = f


for _n in ('column_stack', 'dstack'):
    _structural(_n, True)
for _n in ('hsplit', 'vsplit', 'dsplit', 'diag', 'diagflat', 'resize'):
    _structural(_n)


@reg('block')
def block(x):
    if isinstance(x, list):
        def depth(y):
            return 1 + depth(y[0]) if isinstance(y, list) else 0

        def join(y, d):
            if not isinstance(y, list):
                return F['atleast_2d'](y) if depth(x) > 1 else F['atleast_1d'](y)
            return concatenate([join(z, d - 1) for z in y], -d)
        return join(x, depth(x))
    return wrap(x)


@reg('trace')
def trace(x, offset=0, axis1=0, axis2=1, **k):
    return F['sum'](F['diagonal'](x, offset, axis1, axis2), axis=-1)


@reg('inner')
def inner(a, b):
    a, b = wrap(a), wrap(b)
    if a.a.ndim == b.a.ndim == 1:
        return F['sum'](a * b)
    raise Unsupported('inner of matrices')


@reg('vdot')
def vdot(a, b):
    return F['sum'](F['ravel'](a) * F['ravel'](b))


@reg('kron')
def kron(a, b):
    a, b = wrap(a), wrap(b)
    if a.a.ndim == b.a.ndim == 1:
        return F['ravel'](F['outer'](a, b))
    raise Unsupported('kron of matrices')


@reg('tensordot')
def tensordot(a, b, axes=2):
    a, b = _st(a), _st(b)
    kd, (x, y) = _kinds([a, b])
    if isinstance(axes, int):
        ax, bx = list(range(x.ndim - axes, x.ndim)), list(range(axes))
    else:
        ax, bx = [[v] if isinstance(v, int) else list(v) for v in axes]
    x = np.moveaxis(x, ax, range(-len(ax), 0)) if ax else x
    y = np.moveaxis(y, bx, range(len(bx))) if bx else y
    ra, rb = x.shape[:x.ndim - len(ax)], y.shape[len(bx):]
    x = x.reshape(int(np.prod(ra)), -1)
    y = y.reshape(x.shape[1], -1)
    return F['reshape'](F['matmul'](SymArray(x, kd), SymArray(y, kd)), ra + rb)


@reg('ediff1d')
def ediff1d(x, *a, **k):
    if a or k:
        raise Unsupported('ediff1d with ends')
    return F['diff'](F['ravel'](x))


def _conv(name):
    def f(a, v, mode=None):
        a, v = wrap(a), wrap(v)
        mode = mode or ('full' if name == 'convolve' else 'valid')
        if name == 'correlate':
            v = v[::-1]
        n, m = a.a.shape[0], v.a.shape[0]
        out = []
        for k in range(n + m - 1):
            r = 0
            for i in range(max(0, k - m + 1), min(n, k + 1)):
                r = arith('add', r, arith('mul', a.a[i], v.a[k - i]))
            out.append(r)
        if mode == 'same':
            ln = max(n, m)
            st = (n + m - 1 - ln) // 2
            out = out[st:st + ln]
        elif mode == 'valid':
            st = min(n, m) - 1
            out = out[st:st + abs(n - m) + 1]
        return wrap(out)
    F[name] = f


_conv('convolve')
_conv('correlate')


@reg('nanprod')
def nanprod(x, axis=None, **k):
    return F['prod'](F['where'](F['isnan'](x), 1., x), axis=axis, **k)


@reg('nancumprod')
def nancumprod(x, axis=None, **k):
    return F['cumprod'](F['where'](F['isnan'](x), 1., x), axis=axis)


@reg('nanmedian')
def nanmedian(x, axis=None, keepdims=False, **k):
    w = _st(x)
    if axis is None or isinstance(axis, tuple) and len(axis) == w.ndim:
        w, axis, one = F['ravel'](w), 0, True
    else:
        axis = axis[0] if isinstance(axis, tuple) else axis
        one = False
    srt = np.moveaxis(F['sort'](w, axis=axis).a, axis, -1)
    out = np.empty(srt.shape[:-1], dtype=object)
    for co in np.ndindex(out.shape):
        v = list(srt[co])
        r = np.nan
        for n in range(1, len(v) + 1):      # n values that are not missing
            m = v[n // 2] if n % 2 else arith('mul', arith('add', v[n // 2 - 1], v[n // 2]), 0.5)
            r = s_ite(b_not(alg.is_nan(v[n - 1])), m, r)
        out[co] = cast(norm(r), 'f')
    if one and not keepdims:
        return out[()]
    r = SymArray(out, 'f')
    return F['expand_dims'](r, axis) if keepdims and not one else r


def fmod(a, b):
    """C remainder: the sign of the dividend"""
    aa, bb = symnp.U1['abs'](a), symnp.U1['abs'](b)
    r = arith('mod', aa, bb)
    return s_ite(_bz(arith('ge', a, 0)), r, arith('mul', r, -1))


F['fmod'] = lambda a, b, **k: elementwise2(fmod, a, b, 'fmod') if False else _bin2(fmod, a, b)


def _bin2(fn, a, b):
    if norm(a) is not None and norm(b) is not None:
        return fn(norm(a), norm(b))
    p, q = F['broadcast_arrays'](a, b)
    o = np.empty(p.a.shape, dtype=object)
    for co in np.ndindex(o.shape):
        o[co] = norm(fn(p.a[co], q.a[co]))
    fl = list(o.reshape(-1))
    return SymArray(o, join_kind([kind(v) for v in fl]) if fl else p.kind)


F['divmod'] = lambda a, b, **k: (F['floor_divide'](a, b), F['remainder'](a, b))
F['modf'] = lambda x, **k: ((lambda t: (elementwise2('sub', x, t) if norm(x) is None else arith('sub', x, t), t))(F['trunc'](x)))


@reg('heaviside')
def heaviside(x, h):
    return F['where'](F['isnan'](x), np.nan, F['where'](F['equal'](x, 0), h, F['where'](F['greater'](x, 0), 1., 0.)))


@reg('lexsort')
def lexsort(keys, **k):
    if len(keys) == 1:
        return F['argsort'](keys[0])
    raise Unsupported('lexsort with several keys')


F['partition'] = lambda x, kth, axis=-1, **k: F['sort'](x, axis=axis)
F['argpartition'] = lambda x, kth, axis=-1, **k: F['argsort'](x, axis=axis)
F['require'] = lambda x, *a, **k: wrap(x)


@reg('put')
def put(x, i, v, **k):
    x.flat[i] = v


@reg('put_along_axis')
def put_along_axis(x, idx, v, axis):
    i = _st(idx)
    axis = axis % x.ndim
    vv = F['broadcast_to'](wrap(v), i.a.shape)
    for co in np.ndindex(i.a.shape):
        key = tuple(norm(i.a[co]) if d == axis else (c if x.shape[d] > 1 else 0) for d, c in enumerate(co))
        x[key] = vv.a[co]


@reg('apply_over_axes')
def apply_over_axes(fn, x, axes):
    for ax in np.atleast_1d(axes).tolist():
        r = wrap(fn(x, ax))
        x = r if r.ndim == wrap(x).ndim else F['expand_dims'](r, ax)
    return x


def _quant(scale):
    def f(x, q, axis=None, method='linear', keepdims=False, **k):
        if method != 'linear' or k.get('interpolation', 'linear') != 'linear' or norm(q) is None or is_sym(norm(q)):
            raise Unsupported('percentile of this form')
        w = _st(x)
        if axis is None:
            w, axis = F['ravel'](w), 0
        srt = F['sort'](w, axis=axis)
        pos = float(q) / scale * (w.a.shape[axis] - 1)
        lo = int(np.floor(pos))
        hi = min(lo + 1, w.a.shape[axis] - 1)
        g = pos - lo
        r = F['take'](srt, lo, axis=axis) * (1 - g) + F['take'](srt, hi, axis=axis) * g
        r = F['where'](F['any'](F['isnan'](w), axis=axis), np.nan, r)
        return F['expand_dims'](r, axis) if keepdims else (r if wrap(r).ndim else norm(r))
    return f


F['percentile'], F['quantile'] = _quant(100.), _quant(1.)


@reg('compress')
def compress(c, x, axis=None, **k):
    w = wrap(x)
    c = wrap(c).as_kind('b') if wrap(c).kind != 'b' else wrap(c)
    if axis is None:
        return F['ravel'](w)[c]
    return w[(slice(None),) * (axis % w.ndim) + (c,)]


SymArray.compress = lambda self, c, axis=None, **k: compress(c, self, axis)


def _shift(name, op):
    def f(a, b, **k):
        if is_sym(norm(b)) if norm(b) is not None else True:
            raise Unsupported(name)
        n = 2 ** int(b)
        return elementwise2(op, a, n) if norm(a) is None else arith(op, a, n)
    F[name] = f
    return f


SymArray.__lshift__ = _shift('left_shift', 'mul')
SymArray.__rshift__ = _shift('right_shift', 'floordiv')
alg.Sym.__lshift__, alg.Sym.__rshift__ = SymArray.__lshift__, SymArray.__rshift__
alg.Sym.__divmod__ = lambda a, b: (arith('floordiv', a, b), arith('mod', a, b))
alg.Sym.__rdivmod__ = lambda a, b: (arith('floordiv', b, a), arith('mod', b, a))
SymArray.__divmod__ = lambda a, b: (a // b, a % b)


class _Norm(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np.linalg, name)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        w = wrap(x)
        if not w.symbolic():
            return symnp._wrapres(np.linalg.norm(w.to_numpy(), ord, axis, keepdims))
        if ord not in (None, 2) or (ord == 2 and w.ndim > 1 and axis is None):
            raise Unsupported('norm of order %s' % ord)
        return F['sqrt'](F['sum'](w * w, axis=axis, keepdims=keepdims))


def ndenumerate(x):
    w = wrap(x)
    for co in np.ndindex(w.shape):
        yield co, w[co]


class nditer:
    """the read-only, single-operand form"""

    def __init__(self, x, flags=(), **k):
        if isinstance(x, (list, tuple)) or set(flags) - {'multi_index', 'refs_ok', 'c_index', 'f_index'}:
            raise Unsupported('np.nditer with these options')
        self.x = wrap(x)
        self.at = list(np.ndindex(self.x.shape))
        self.i = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        while self.i < len(self.at):
            yield self.x[self.at[self.i]]
            self.i += 1

    finished = property(lambda self: self.i >= len(self.at))
    multi_index = property(lambda self: self.at[self.i])
    index = property(lambda self: self.i)
    value = property(lambda self: self.x[self.at[self.i]])

    def __getitem__(self, k):
        return self.value

    def iternext(self):
        self.i += 1
        return not self.finished


class _RC:
    def __init__(self, real, col):
        self.real, self.col = real, col

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if not any(isinstance(k, SymArray) or is_sym(k) for k in ks):
            return symnp._wrapres(self.real[key])
        out = []
        for k in ks:
            if isinstance(k, slice):
                k = self.real[k]
            if isinstance(k, str):
                raise Unsupported('np.r_ with a directive')
            w = F['atleast_1d'](k) if norm(k) is None else F['atleast_1d'](wrap([k]))
            if self.col and w.ndim == 1:
                w = F['reshape'](w, (-1, 1))
            out.append(w)
        return concatenate(out, -1 if self.col else 0)


class _Lib(types.ModuleType):
    def __getattr__(self, name):
        if name == 'stride_tricks':
            return self
        if name == 'sliding_window_view':
            return sliding_window_view
        return getattr(np.lib, name)


@reg('sliding_window_view')
def sliding_window_view(x, window_shape, axis=None, **k):
    w = _st(x)
    idx = np.lib.stride_tricks.sliding_window_view(np.arange(w.a.size).reshape(w.a.shape), window_shape, axis)
    return _r(w, w.a.reshape(-1)[idx])


def frompyfunc(fn, nin, nout, **k):
    if nout != 1:
        raise Unsupported('frompyfunc with several outputs')
    if nin == 1:
        return lambda x: symnp.elementwise1(fn, x)
    if nin == 2:
        return lambda a, b: _bin2(fn, a, b)
    raise Unsupported('frompyfunc')


class MaskedArray:
    """numpy.ma for the common uses: a filled value, reductions over what is not masked"""

    def __init__(self, data, mask=False):
        if isinstance(data, MaskedArray):
            mask = F['logical_or'](data.mask, mask)
            data = data.data
        self.data = wrap(data)
        self.mask = F['broadcast_to'](wrap(mask), self.data.shape)
        self.fill_value = 1e20

    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)

    def filled(self, v=None):
        return F['where'](self.mask, self.fill_value if v is None else v, self.data)

    def compressed(self):
        return self.data[F['logical_not'](self.mask)]

    def __getitem__(self, k):
        return MaskedArray(self.data[k], self.mask[k])

    def sum(self, axis=None):
        r = F['sum'](self.filled(0), axis=axis)
        return self._red(r, axis)

    def _red(self, r, axis):
        if axis is None:
            return r
        return MaskedArray(r, F['all'](self.mask, axis=axis))

    def mean(self, axis=None):
        n = F['sum'](F['where'](self.mask, 0, 1), axis=axis)
        return self._red(elementwise2('div', F['sum'](self.filled(0.), axis=axis), n)
                         if axis is not None else arith('div', F['sum'](self.filled(0.)), n), axis)

    def _op(self, name, o, swap=False):
        m = self.mask
        if isinstance(o, MaskedArray):
            m, o = F['logical_or'](m, o.mask), o.data
        a, b = (o, self.data) if swap else (self.data, o)
        return MaskedArray(elementwise2(name, a, b), m)

    def __add__(self, o): return self._op('add', o)
    def __radd__(self, o): return self._op('add', o, True)
    def __sub__(self, o): return self._op('sub', o)
    def __rsub__(self, o): return self._op('sub', o, True)
    def __mul__(self, o): return self._op('mul', o)
    def __rmul__(self, o): return self._op('mul', o, True)

    def __getattr__(self, name):
        raise Unsupported('numpy.ma.MaskedArray.' + name)


class _MA(types.ModuleType):
    MaskedArray = MaskedArray

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('numpy.ma.' + name)

    @staticmethod
    def array(x, mask=False, **k):
        return MaskedArray(x, mask)
    masked_array = array

    @staticmethod
    def masked_where(c, x, **k):
        return MaskedArray(x, c)

    @staticmethod
    def masked_invalid(x, **k):
        return MaskedArray(x, F['logical_not'](F['isfinite'](x)))

    @staticmethod
    def masked_equal(x, v, **k):
        return MaskedArray(x, F['equal'](x, v))

    @staticmethod
    def masked_less(x, v, **k):
        return MaskedArray(x, F['less'](x, v))

    @staticmethod
    def masked_greater(x, v, **k):
        return MaskedArray(x, F['greater'](x, v))

    @staticmethod
    def filled(x, v=None):
        return x.filled(v) if isinstance(x, MaskedArray) else x

    @staticmethod
    def getdata(x):
        return x.data if isinstance(x, MaskedArray) else x

    @staticmethod
    def getmaskarray(x):
        return x.mask if isinstance(x, MaskedArray) else F['zeros'](wrap(x).shape, dtype=bool)


def install(np_):
    """the attributes of the numpy the code sees that are no functions"""
    np_.ndenumerate, np_.nditer = ndenumerate, nditer
    np_.r_, np_.c_ = _RC(np.r_, False), _RC(np.c_, True)
    np_.linalg = _Norm('numpy.linalg')
    np_.lib = _Lib('numpy.lib')
    np_.frompyfunc = frompyfunc
    np_.ma = _MA('numpy.ma')


install(symnp.SYMNP)
