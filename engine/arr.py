"""SymArray: duck array of symbolic / concrete scalars; symbolic lengths and indices."""
import itertools
import math
import numpy as np
import z3
from . import alg
from .alg import (S, I, B, Sym, arith, norm, s_ite, mkB, mkI, b_and, b_or, b_not, is_sym, zi, to_i, _bz, kind)
from .ctx import Unsupported
from . import ctx as _c

DT = {'f': np.dtype('float64'), 'i': np.dtype('int64'), 'b': np.dtype('bool')}


def kind_of_dtype(dt):
    """-> 'f','i','b', ('i8') or None when not numeric"""
    if dt is None:
        return 'f'
    if isinstance(dt, str) and dt in ('f', 'i', 'b'):
        dt = {'f': 'f8', 'i': 'i8', 'b': '?'}[dt]
    try:
        import builtins
        if isinstance(dt, type) and issubclass(dt, builtins.int) and dt is not bool and not issubclass(dt, np.generic):
            return 'i'
        if isinstance(dt, type) and issubclass(dt, builtins.float) and not issubclass(dt, np.generic):
            return 'f'
        k = np.dtype(dt).kind
    except TypeError:
        return None
    if k == 'u':
        return 'i'
    return k if k in 'fib' else None


def cast(x, k):
    """scalar to kind"""
    x = norm(x)
    xk = kind(x)
    if k is None or xk == k:
        return x
    if k == 'f':
        return alg.to_s_val(x) if is_sym(x) else float(x)
    if k == 'i':
        return alg.cast_int(x)
    return mkB(_bz(x))


def wrap(x):
    """backing object array for anything array-like"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, Sym):
        return from_scalar(x)
    if hasattr(x, '__module__') and type(x).__module__.startswith('xarray'):
        return wrap(x.values)
    if isinstance(x, (list, tuple)):
        return from_list(x)
    a = np.asarray(x)
    return from_nd(a)


def from_scalar(x):
    x = norm(x)
    o = np.empty((), dtype=object)
    o[()] = x
    return SymArray(o, kind(x))


def from_nd(a):
    if a.dtype == object:
        flat = [norm(v) for v in a.ravel()]
        if any(v is None for v in flat):
            raise Unsupported('object array of non-numbers')
        k = join_kind([kind(v) for v in flat]) if flat else 'f'
        o = np.empty(a.shape, dtype=object)
        o.ravel()[:] = 0
        f = o.reshape(-1)
        for i, v in enumerate(flat):
            f[i] = cast(v, k)
        return SymArray(f.reshape(a.shape), k)
    k = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(a.dtype.kind)
    if k is None:
        raise Unsupported('array of dtype %s' % a.dtype)
    return SymArray(obj(a), k)


def obj(a):
    o = np.empty(a.shape, dtype=object)
    f = o.reshape(-1)
    for i, v in enumerate(a.ravel().tolist()):
        f[i] = v
    return f.reshape(a.shape)


def join_kind(ks):
    ks = set(ks)
    return 'f' if 'f' in ks else ('i' if 'i' in ks else 'b')


def from_list(x):
    if not len(x):
        return from_nd(np.array(x, dtype=float))
    els = [e for e in x]
    if all(norm(e) is not None for e in els):
        vals = [norm(e) for e in els]
        k = join_kind([kind(v) for v in vals])
        o = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            o[i] = cast(v, k)
        return SymArray(o, k)
    parts = [wrap(e) for e in els]
    return stack(parts, 0)


def stack(parts, axis=0):
    parts = [wrap(p) for p in parts]
    parts = [p.fixed() for p in parts]
    k = join_kind([p.kind for p in parts])
    a = np.stack([p.as_kind(k).a for p in parts], axis=axis)
    return SymArray(a, k)


def has_sym(a):
    return any(is_sym(v) for v in a.reshape(-1))


def unwrap_scalar(v):
    """element leaving an array: numpy scalars for concrete values (numpy semantics of 1/0 etc.)"""
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v)
    if isinstance(v, float):
        return np.float64(v)
    return v


class SymArray:
    __array_priority__ = 2000

    def __init__(self, a, kind='f', n=None, dom=None):
        if n is not None and not is_sym(n):
            a, n = a[:int(n)], None
        self.a = a
        self.kind = kind
        self.n = n          # symbolic length of axis 0 (I) or None
        self.dom = dom      # values are in [0, dom) when known

    # ------------------------------------------------------------ protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.array_function(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        if not self.symbolic():
            r = np.array(self.a.tolist(), dtype=DT[self.kind]).reshape(self.a.shape)
            return r if dtype is None else r.astype(dtype)
        raise Unsupported('conversion of a symbolic array to numpy')

    def symbolic(self):
        return self.n is not None or has_sym(self.a)

    def to_numpy(self):
        return np.array(self.a.tolist(), dtype=DT[self.kind]).reshape(self.a.shape)

    # ---------------------------------------------------------- attributes
    @property
    def dtype(self):
        return DT[self.kind]

    @property
    def shape(self):
        if self.n is not None:
            return (self.n,) + self.a.shape[1:]
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        if self.n is not None:
            r = self.n
            for d in self.a.shape[1:]:
                r = r * d
            return r
        return self.a.size

    @property
    def nbytes(self):
        return self.a.size * 8

    @property
    def itemsize(self):
        return 8

    @property
    def T(self):
        return self.transpose()

    @property
    def values(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self * 0.0

    @property
    def data(self):
        return self

    @property
    def flat(self):
        return Flat(self)

    @property
    def strides(self):
        return self.a.strides

    @property
    def flags(self):
        return self.a.flags

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError('len() of unsized object')
        return len(self.fixed().a)

    def __iter__(self):
        f = self.fixed()
        if f.a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(f.a.shape[0]):
            yield f[i]

    def __repr__(self):
        return 'SymArray(%s,%s%s)' % (self.kind, self.a.tolist(), '' if self.n is None else ', n=%s' % (self.n,))

    def __format__(self, spec):
        if self.a.ndim == 0:
            return format(self.a[()], spec)
        return repr(self)

    def __bool__(self):
        if self.n is None and self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        f = self.fixed()
        if f.a.size == 1:
            return bool(f.a.reshape(-1)[0])
        if f.a.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __index__(self):
        if self.a.size == 1:
            return self.a.reshape(-1)[0].__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __int__(self):
        if self.a.size == 1:
            return int(self.a.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted')

    def __float__(self):
        if self.a.size == 1:
            return float(self.a.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted')

    def __hash__(self):
        return id(self)

    # --------------------------------------------------------- conversions
    def fixed(self):
        """concrete-length version (forks on the length)"""
        if self.n is None:
            return self
        n = int(self.n) if is_sym(self.n) else self.n
        return SymArray(self.a[:n], self.kind, None, self.dom)

    def as_kind(self, k):
        if k is None or k == self.kind:
            return self
        o = np.empty(self.a.shape, dtype=object)
        f, g = o.reshape(-1), self.a.reshape(-1)
        for i in range(len(g)):
            f[i] = cast(g[i], k)
        return SymArray(f.reshape(self.a.shape), k, self.n, self.dom if k == 'i' else None)

    def astype(self, dt, *a, copy=True, **kw):
        if isinstance(dt, np.dtype) and dt == object:
            return self.copy()
        k = kind_of_dtype(dt)
        if k is None:
            raise Unsupported('astype(%r)' % (dt,))
        r = self.as_kind(k)
        return r.copy() if r is self else r

    def copy(self, order=None, **kw):
        return SymArray(self.a.copy(), self.kind, self.n, self.dom)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *i):
        if i:
            return self.fixed().a.item(*i)
        f = self.fixed()
        return f.a.reshape(-1)[0] if f.a.size == 1 else f.a.item()

    def tolist(self):
        return self.fixed().a.tolist()

    def view(self, *a, **k):
        return self

    def mapped(self, fn, k=None):
        o = np.empty(self.a.shape, dtype=object)
        f, g = o.reshape(-1), self.a.reshape(-1)
        for i in range(len(g)):
            f[i] = fn(g[i])
        kk = k or (join_kind([kind(v) for v in f]) if len(f) else self.kind)
        return SymArray(f.reshape(self.a.shape), kk, self.n)

    # ------------------------------------------------------------ indexing
    def _normkey(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        ell = any(k is Ellipsis for k in key)
        for k in key:
            if isinstance(k, np.ndarray) and k.dtype == object:
                k = wrap(k)
            if hasattr(k, '__module__') and type(k).__module__.startswith('xarray'):
                k = k.values
            if isinstance(k, (list, tuple)):
                w = wrap(k)
                if len(k) == 0:
                    w = w.as_kind('i')
                k = w
            if isinstance(k, SymArray):
                if k.kind == 'b':
                    if not k.symbolic():
                        k = k.to_numpy()
                elif k.kind == 'i':
                    if not k.symbolic():
                        k = k.to_numpy()
                    elif k.a.ndim == 0:
                        k = k.a[()]
                elif k.a.size == 0:
                    k = np.zeros(k.a.shape, dtype=int)
                else:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
            if isinstance(k, S):
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                                 'integer or boolean arrays are valid indices')
            if isinstance(k, B):
                k = bool(k)
            out.append(k)
        return out, ell

    def _expand(self, key):
        """expand Ellipsis, turn symbolic boolean masks into symbolic integer vectors"""
        nd = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, SymArray) and k.kind == 'b':
                nd += k.a.ndim
            elif isinstance(k, np.ndarray) and k.dtype == bool:
                nd += k.ndim
            else:
                nd += 1
        out = []
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * (self.a.ndim - nd))
                nd = self.a.ndim
            else:
                out.append(k)
        if not any(k is Ellipsis for k in key):
            out.extend([slice(None)] * (self.a.ndim - nd))
        return out

    def _symbolic_key(self, key):
        for k in key:
            if isinstance(k, (I, SymArray)):
                return True
            if isinstance(k, slice) and any(is_sym(v) or (isinstance(v, SymArray)) for v in
                                            (k.start, k.stop, k.step)):
                return True
        return False

    def __getitem__(self, key):
        key, ell = self._normkey(key)
        if self.n is not None:
            return self._getitem_len(key)
        if not self._symbolic_key(key):
            r = self.a[tuple(key)]
            if isinstance(r, np.ndarray):
                return SymArray(r, self.kind, None, self.dom)
            if ell:
                return from_scalar(r)
            return unwrap_scalar(r)
        if len(key) == 1 and isinstance(key[0], SymArray) and key[0].kind == 'b' and key[0].a.ndim > 1:
            return self._take_mask_nd(key[0])
        key = self._expand(key)
        # slices with symbolic ends: only on axis 0 as a symbolic length, otherwise concretised
        key2 = []
        ax = 0
        post = None
        for pos, k in enumerate(key):
            if isinstance(k, slice) and self._symbolic_key([k]):
                if pos == 0 and len([q for q in key if not (isinstance(q, slice))]) == 0 and k.step is None:
                    post = k
                    k = slice(None)
                else:
                    k = conc_slice(k)
            key2.append(k)
        if post is not None:
            r = self[tuple(key2)]
            return sym_slice(r, post)
        key = key2
        if not self._symbolic_key(key):
            return self[tuple(key)]
        return self._gather(key)

    def _getitem_len(self, key):
        """indexing of a symbolic-length vector"""
        k0 = key[0] if key else Ellipsis
        rest = key[1:]
        if k0 is Ellipsis and len(key) == 1:
            return self
        if isinstance(k0, slice):
            r = sym_slice(self, k0)
            if rest:
                a = r.a[(slice(None),) + tuple(conc_slice(k) if isinstance(k, slice) else k for k in rest)]
                r = SymArray(a, r.kind, r.n, r.dom)
            return r
        if k0 is None:
            return self.fixed()[tuple(key)]
        if isinstance(k0, (int, np.integer, I)) and not rest:
            n = zi(to_i(self.n))
            i = zi(to_i(norm(k0)))
            if isinstance(k0, (int, np.integer)) and k0 < 0:
                i = z3.simplify(n + int(k0))
            if not _c.CTX.fork(z3.simplify(z3.And(i >= 0, i < n))):
                raise IndexError('index out of bounds')
            return self._pick(mkI(i), self.a)
        if isinstance(k0, (SymArray, np.ndarray)) and not rest:
            if isinstance(k0, np.ndarray):
                k0 = from_nd(k0)
            if k0.kind == 'b':
                return SymArray(self.a, self.kind, None, self.dom)._compress(k0, self.n)
            check_bounds(k0, self.n)
            return SymArray(self.a, self.kind, None, self.dom)._gather([k0] + [slice(None)] * (self.a.ndim - 1))
        return self.fixed()[tuple(key)]

    def _pick(self, i, a):
        """a[i] for symbolic scalar i"""
        if isinstance(i, int):
            r = a[i]
            return SymArray(r, self.kind, None, self.dom) if isinstance(r, np.ndarray) else unwrap_scalar(r)
        m = a.shape[0]
        if a.ndim > 1:
            rows = [a[j] for j in range(m)]
            o = rows[-1].copy()
            fo = o.reshape(-1)
            for j in range(m - 2, -1, -1):
                fr = rows[j].reshape(-1)
                for t in range(len(fo)):
                    fo[t] = s_ite(idx_eq(i, j, m), fr[t], fo[t])
            return SymArray(fo.reshape(o.shape), self.kind, None, self.dom)
        r = a[m - 1]
        for j in range(m - 2, -1, -1):
            r = s_ite(idx_eq(i, j, m), a[j], r)
        return unwrap_scalar(r) if not is_sym(r) else r

    def _compress(self, mask, n=None):
        idx = where_vec(mask, n)
        return SymArray(self.a, self.kind, None, self.dom)[idx]

    def _take_mask_nd(self, mask):
        flat = SymArray(self.a[(slice(None),) * mask.a.ndim].reshape((-1,) + self.a.shape[mask.a.ndim:]), self.kind,
                        None, self.dom)
        m = SymArray(mask.a.reshape(-1), 'b')
        return flat[m]

    def _mesh(self, key):
        """for symbolic keys: result shape, per-result-element coordinates and element ids"""
        symax = {}
        key2, shp = [], list(self.a.shape)
        ax = 0
        lens = None
        for k in key:
            if k is None:
                key2.append(None)
                continue
            if isinstance(k, SymArray) and k.kind == 'b':
                if k.a.ndim != 1:
                    raise Unsupported('mixed multi-dimensional symbolic mask')
                k = where_vec(k)
            if isinstance(k, I):
                symax[ax] = ([k], [True])
                shp[ax] = 1
                key2.append(0)
            elif isinstance(k, SymArray):
                els = list(k.a.reshape(-1))
                if k.n is not None:
                    per = k.a.size // max(1, k.a.shape[0]) if k.a.shape[0] else 1
                    nn = zi(to_i(k.n))
                    g = [z3.simplify(z3.IntVal(t // per) < nn) for t in range(len(els))]
                    lens = k.n
                else:
                    g = [True] * len(els)
                symax[ax] = (els, g)
                shp[ax] = len(els)
                key2.append(np.arange(len(els)).reshape(k.a.shape))
            else:
                key2.append(k)
                if isinstance(k, np.ndarray) and k.dtype == bool:
                    ax += k.ndim - 1
            ax += 1
        key2 = tuple(key2)
        coords = [np.asarray(np.broadcast_to(np.arange(s).reshape([-1 if d == x else 1 for d in range(len(shp))]),
                                             shp)[key2]) for x, s in enumerate(shp)]
        return symax, coords, lens

    def _gather(self, key):
        for ax, k in self._axes(key):
            if isinstance(k, (I, SymArray)):
                check_bounds(k if isinstance(k, SymArray) else from_scalar(k), self.a.shape[ax])
        symax, coords, lens = self._mesh(key)
        shape = coords[0].shape
        out = np.empty(shape, dtype=object)
        fo = out.reshape(-1)
        cf = [c.reshape(-1) for c in coords]
        for t in range(len(fo)):
            fo[t] = self._select(tuple(int(c[t]) for c in cf), symax, 0)
        if out.ndim == 0 and shape == ():
            v = fo[0]
            return v if is_sym(v) else unwrap_scalar(v)
        n = None
        if lens is not None:
            n = lens
            ks = [k for k in key if isinstance(k, SymArray)]
            # the symbolic length must be on result axis 0
            if not isinstance(key[0], (SymArray,)) and any(isinstance(k, slice) for k in key[:1]):
                raise Unsupported('symbolic-length index not on the first axis')
        return SymArray(fo.reshape(shape), self.kind, n, self.dom)

    def _axes(self, key):
        ax = 0
        for k in key:
            if k is None:
                continue
            yield ax, k
            ax += 1

    def _select(self, co, symax, ax):
        if ax == len(co):
            return self.a[co]
        if ax not in symax:
            return self._select(co, symax, ax + 1)
        els, g = symax[ax]
        e = els[co[ax]]
        if isinstance(e, int):
            return self._select(co[:ax] + (e,) + co[ax + 1:], symax, ax + 1)
        m = self.a.shape[ax]
        if m == 0:
            return 0
        r = self._select(co[:ax] + (m - 1,) + co[ax + 1:], symax, ax + 1)
        for v in range(m - 2, -1, -1):
            r = s_ite(idx_eq(e, v, m), self._select(co[:ax] + (v,) + co[ax + 1:], symax, ax + 1), r)
        return r

    def __setitem__(self, key, val):
        if hasattr(val, '__module__') and type(val).__module__.startswith('xarray'):
            val = val.values
        if hasattr(val, '_magnitude') and hasattr(val, '_units'):
            val = val._magnitude
        key, ell = self._normkey(key)
        if self.n is not None:
            f = self.fixed()
            self.a, self.n = f.a.copy(), None
        self.dom = None
        if not self._symbolic_key(key):
            key = tuple(key)
            if norm(val) is not None:
                v = cast(val, self.kind)
                tgt = self.a[key]
                if isinstance(tgt, np.ndarray):
                    e = np.empty((), dtype=object)
                    e[()] = v
                    self.a[key] = e
                else:
                    self.a[key] = v
                return
            w = wrap(val)
            tgt = self.a[key]
            if w.n is not None:
                w = w.fixed()
            w = w.as_kind(self.kind)
            if isinstance(tgt, np.ndarray):
                self.a[key] = w.a
            else:
                if w.a.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                self.a[key] = w.a.reshape(-1)[0]
            return
        if len(key) == 1 and isinstance(key[0], SymArray) and key[0].kind == 'b':
            m = key[0]
            if norm(val) is not None and m.a.ndim <= self.a.ndim:
                v = cast(val, self.kind)
                for co in np.ndindex(m.a.shape):
                    c = _bz(m.a[co])
                    if m.a.ndim == self.a.ndim:
                        self.a[co] = s_ite(c, v, self.a[co])
                    else:
                        sub = self.a[co]
                        for c2 in np.ndindex(sub.shape):
                            sub[c2] = s_ite(c, v, sub[c2])
                return
            if m.a.ndim == self.a.ndim and m.a.ndim > 1:
                flat = SymArray(self.a.reshape(-1), self.kind)
                flat[SymArray(m.a.reshape(-1), 'b')] = val
                self.a[...] = flat.a.reshape(self.a.shape)
                return
        key = self._expand(key)
        # boolean masks with a scalar value: a plain conditional store (no index vectors)
        if norm(val) is not None:
            masks = [(p, k) for p, k in enumerate(key) if isinstance(k, SymArray) and k.kind == 'b']
            if len(masks) == 1 and masks[0][1].a.ndim == 1 and not any(
                    isinstance(k, (np.ndarray, I)) or k is None or
                    (isinstance(k, slice) and self._symbolic_key([k])) or
                    (isinstance(k, SymArray) and k.kind == 'i') for k in key):
                p, m = masks[0]
                v = cast(val, self.kind)
                if m.a.shape[0] != self.a.shape[p]:
                    raise IndexError('boolean index did not match indexed array')
                for j in range(m.a.shape[0]):
                    kk = tuple(key[:p]) + (j,) + tuple(key[p + 1:])
                    sub = self.a[kk]
                    c = _bz(m.a[j])
                    if isinstance(sub, np.ndarray):
                        for c2 in np.ndindex(sub.shape):
                            sub[c2] = s_ite(c, v, sub[c2])
                    else:
                        self.a[kk] = s_ite(c, v, sub)
                return
        # slices with symbolic ends: conditional store
        for pos, k in enumerate(key):
            if isinstance(k, slice) and self._symbolic_key([k]):
                ax = len([q for q in key[:pos] if q is not None])
                if k.step is None and norm(val) is not None and not any(isinstance(q, SymArray) for q in key):
                    m = slice_mask(k, self.a.shape[ax])
                    kk = list(key)
                    for j in range(self.a.shape[ax]):
                        kk[pos] = j
                        cur = self[tuple(kk)]
                        if isinstance(cur, SymArray):
                            new = SymArray(np.empty(cur.a.shape, dtype=object), self.kind)
                            for co in np.ndindex(cur.a.shape):
                                new.a[co] = s_ite(m[j], cast(val, self.kind), cur.a[co])
                        else:
                            new = s_ite(m[j], cast(val, self.kind), norm(cur))
                        self[tuple(kk)] = new
                    return
                key[pos] = conc_slice(k)
        if not self._symbolic_key(key):
            self[tuple(key)] = val
            return
        for ax, k in self._axes(key):
            if isinstance(k, (I, SymArray)):
                check_bounds(k if isinstance(k, SymArray) else from_scalar(k), self.a.shape[ax])
        symax, coords, lens = self._mesh(key)
        shape = coords[0].shape
        cf = [c.reshape(-1) for c in coords]
        if norm(val) is not None:
            vals = [cast(val, self.kind)] * len(cf[0])
        else:
            w = wrap(val)
            if lens is not None and w.n is not None:
                # both lengths symbolic: numpy requires them equal (or a value of length one)
                w = SymArray(w.a, w.kind)
                if w.a.shape[0] < shape[0]:
                    pad = np.empty((shape[0] - w.a.shape[0],) + w.a.shape[1:], dtype=object)
                    pad.reshape(-1)[:] = 0
                    w = SymArray(np.concatenate([w.a, pad]), w.kind)
                elif w.a.shape[0] > shape[0]:
                    w = SymArray(w.a[:shape[0]], w.kind)
            elif lens is not None:
                n = int(lens) if is_sym(lens) else lens
                key3 = [SymArray(k.a[:n], k.kind) if isinstance(k, SymArray) and k.n is not None else
                        (where_vec(k).fixed() if isinstance(k, SymArray) and k.kind == 'b' else k) for k in key]
                self[tuple(key3)] = val
                return
            elif w.n is not None:
                w = w.fixed()
            w = w.as_kind(self.kind)
            vals = list(np.broadcast_to(w.a, shape).reshape(-1))
        for t in range(len(cf[0])):
            self._store(tuple(int(c[t]) for c in cf), symax, 0, vals[t], True)

    def _store(self, co, symax, ax, v, cond):
        if cond is False:
            return
        if ax == len(co):
            self.a[co] = s_ite(cond, v, self.a[co]) if cond is not True else v
            return
        if ax not in symax:
            return self._store(co, symax, ax + 1, v, cond)
        els, g = symax[ax]
        e, gd = els[co[ax]], g[co[ax]]
        gd = z_b(gd)
        if isinstance(e, int):
            return self._store(co[:ax] + (e,) + co[ax + 1:], symax, ax + 1, v, b_and(cond, gd))
        m = self.a.shape[ax]
        for u in range(m):
            self._store(co[:ax] + (u,) + co[ax + 1:], symax, ax + 1, v, b_and(cond, gd, idx_eq(e, u, m)))

    # ---------------------------------------------------------- arithmetic
    def _bin(self, op, o, rev=False):
        from . import symnp
        if o is None or isinstance(o, str):
            return NotImplemented
        if hasattr(o, '_magnitude') or type(o).__module__.startswith(('xarray', 'pint')):
            return NotImplemented
        return symnp.elementwise2(op, o, self) if rev else symnp.elementwise2(op, self, o)

    def _ibin(self, op, o):
        r = self._bin(op, o)
        if r is NotImplemented:
            return r
        if isinstance(r, SymArray):
            if self.kind in 'ib' and r.kind == 'f':
                raise np.core._exceptions.UFuncTypeError(np.add) if False else TypeError(
                    "Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
            if r.n is not None or self.n is not None or r.a.shape != self.a.shape:
                if r.n is None and self.n is None:
                    raise ValueError('non-broadcastable output operand')
                self.a, self.n = r.as_kind(self.kind).a, r.n
                return self
            self.a[...] = r.as_kind(self.kind).a
            self.dom = None
            return self
        e = np.empty((), dtype=object)
        e[()] = cast(r, self.kind)
        self.a[...] = e
        return self

    def __add__(self, o): return self._bin('add', o)
    def __radd__(self, o): return self._bin('add', o, True)
    def __sub__(self, o): return self._bin('sub', o)
    def __rsub__(self, o): return self._bin('sub', o, True)
    def __mul__(self, o): return self._bin('mul', o)
    def __rmul__(self, o): return self._bin('mul', o, True)
    def __truediv__(self, o): return self._bin('div', o)
    def __rtruediv__(self, o): return self._bin('div', o, True)
    def __floordiv__(self, o): return self._bin('floordiv', o)
    def __rfloordiv__(self, o): return self._bin('floordiv', o, True)
    def __mod__(self, o): return self._bin('mod', o)
    def __rmod__(self, o): return self._bin('mod', o, True)
    def __pow__(self, o): return self._bin('pow', o)
    def __rpow__(self, o): return self._bin('pow', o, True)
    def __lt__(self, o): return self._bin('lt', o)
    def __le__(self, o): return self._bin('le', o)
    def __gt__(self, o): return self._bin('gt', o)
    def __ge__(self, o): return self._bin('ge', o)
    def __eq__(self, o): return self._bin('eq', o)
    def __ne__(self, o): return self._bin('ne', o)
    def __and__(self, o): return self._bin('and', o)
    def __rand__(self, o): return self._bin('and', o, True)
    def __or__(self, o): return self._bin('or', o)
    def __ror__(self, o): return self._bin('or', o, True)
    def __xor__(self, o): return self._bin('xor', o)
    def __rxor__(self, o): return self._bin('xor', o, True)
    def __matmul__(self, o):
        from . import symnp
        return symnp.F['matmul'](self, o)
    def __iadd__(self, o): return self._ibin('add', o)
    def __isub__(self, o): return self._ibin('sub', o)
    def __imul__(self, o): return self._ibin('mul', o)
    def __itruediv__(self, o): return self._ibin('div', o)
    def __ifloordiv__(self, o): return self._ibin('floordiv', o)
    def __ipow__(self, o): return self._ibin('pow', o)
    def __iand__(self, o): return self._ibin('and', o)
    def __ior__(self, o): return self._ibin('or', o)
    def __neg__(self): return self._bin('sub', 0, True)
    def __pos__(self): return self.copy()
    def __abs__(self): return self.mapped(alg.s_abs)

    def __invert__(self):
        if self.kind != 'b':
            raise Unsupported('~ on integers')
        return self.mapped(lambda v: mkB(b_not(_bz(v))), 'b')

    def __contains__(self, x):
        from . import symnp
        return bool(symnp.F['any'](self == x))


def _method(name):
    def m(self, *a, **k):
        from . import symnp
        return symnp.F[name](self, *a, **k)
    m.__name__ = name
    return m


for _n in ('sum', 'prod', 'mean', 'max', 'min', 'any', 'all', 'argmin', 'argmax', 'cumsum', 'cumprod', 'reshape',
           'transpose', 'squeeze', 'ravel', 'nonzero', 'round', 'clip', 'std', 'var', 'repeat', 'swapaxes', 'take',
           'diagonal', 'dot', 'argsort', 'searchsorted', 'fill', 'compress', 'ptp', 'trace'):
    setattr(SymArray, _n, _method(_n))


def _sort_in_place(self, axis=-1, **k):
    from . import symnp
    self[...] = symnp.F['sort'](self, axis=axis)


def _itemset(self, *a):
    if len(a) == 1:
        self[...] = a[0]
    elif isinstance(a[0], tuple):
        self[a[0]] = a[1]
    elif len(a) == 2:
        self.flat[a[0]] = a[1]
    else:
        self[a[:-1]] = a[-1]


SymArray.sort = _sort_in_place
SymArray.itemset = _itemset
SymArray.put = lambda self, i, v, **k: self.flat.__setitem__(i, v)
SymArray.flatten = lambda self, order='C': self.ravel().copy()


def z_b(g):
    if isinstance(g, bool):
        return g
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    return g


_EQ = {}


def idx_eq(e, v, m):
    """index element e selects position v of an axis of length m"""
    ee = zi(to_i(e))
    if nonneg(ee):
        r = ee == v
    else:
        r = z3.Or(ee == v, ee == v - m)
    return z_b(z3.simplify(r))


def nonneg(ee):
    return _c.CTX.decide(ee >= 0) is True


def check_bounds(k, n):
    """IndexError path when some index can fall outside [-n, n)"""
    nn = zi(to_i(norm(n) if not isinstance(n, int) else n))
    conds = []
    per = 1
    if k.n is not None and k.a.shape[0]:
        per = k.a.size // k.a.shape[0]
    for t, e in enumerate(k.a.reshape(-1)):
        ee = zi(to_i(e))
        c = z3.And(ee < nn, ee >= -nn)
        if k.n is not None:
            c = z3.Implies(z3.IntVal(t // per) < zi(to_i(k.n)), c)
        conds.append(c)
    if not conds:
        return
    if k.dom is not None and isinstance(n, int) and k.dom <= n:
        return
    if not _c.CTX.fork(z3.simplify(z3.And(*conds))):
        raise IndexError('index is out of bounds for axis')


def conc_slice(k):
    def c(v):
        if isinstance(v, SymArray):
            v = v.item()
        return int(v) if is_sym(v) else v
    return slice(c(k.start), c(k.stop), c(k.step))


def slice_bounds(k, n):
    """(start, stop) as z3 ints clipped to [0, n]"""
    nn = zi(to_i(n))

    def cl(v, d):
        if v is None:
            return d
        if isinstance(v, SymArray):
            v = v.item()
        v = norm(v)
        if isinstance(v, S) or isinstance(v, float):
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        e = zi(to_i(v))
        e = z3.If(e < 0, e + nn, e)
        return z3.If(e < 0, z3.IntVal(0), z3.If(e > nn, nn, e))
    s = z3.simplify(cl(k.start, z3.IntVal(0)))
    t = z3.simplify(cl(k.stop, nn))
    return s, t


def slice_mask(k, n):
    s, t = slice_bounds(k, n)
    return [z_b(z3.simplify(z3.And(z3.IntVal(j) >= s, z3.IntVal(j) < t))) for j in range(n)]


def sym_slice(v, k):
    """v[k] along axis 0 where length and/or slice ends are symbolic"""
    if isinstance(v.n, int):
        v = SymArray(v.a[:v.n], v.kind, None, v.dom)
    if k.step not in (None, 1):
        return v.fixed()[conc_slice(k)]
    n = v.n if v.n is not None else v.a.shape[0]
    s, t = slice_bounds(k, n)
    ln = z3.simplify(z3.If(t > s, t - s, z3.IntVal(0)))
    m = v.a.shape[0]
    if z3.is_int_value(s):
        st = s.as_long()
        a = v.a[st:]
        if z3.is_int_value(ln):
            return SymArray(a[:ln.as_long()], v.kind, None, v.dom)
        mx = m - st
        if k.stop is not None and not is_sym(norm(k.stop)) and int(k.stop) >= 0:
            mx = min(mx, max(0, int(k.stop) - st))
        return SymArray(a[:mx], v.kind, I(ln), v.dom)
    # symbolic start: shift
    out = np.empty(v.a.shape, dtype=object)
    for j in range(m):
        row = v.a[m - 1]
        for st in range(m - 1 - j, -1, -1):
            src = v.a[st + j]
            c = z_b(z3.simplify(s == st))
            if isinstance(src, np.ndarray):
                r = np.empty(src.shape, dtype=object)
                for co in np.ndindex(src.shape):
                    r[co] = s_ite(c, src[co], row[co])
                row = r
            else:
                row = s_ite(c, src, row)
        out[j] = row
    n2 = mkI(ln)
    if isinstance(n2, int):
        return SymArray(out[:n2], v.kind, None, v.dom)
    return SymArray(out, v.kind, n2, v.dom)


def where_vec(mask, n=None):
    """positions of the True elements of a 1-d mask, as a symbolic-length vector"""
    m = [(_bz(v)) for v in mask.a.reshape(-1)]
    if mask.n is not None or n is not None:
        nn = zi(to_i(mask.n if mask.n is not None else n))
        m = [b_and(c, z_b(z3.simplify(z3.IntVal(i) < nn))) for i, c in enumerate(m)]
    N = len(m)
    if all(isinstance(c, bool) for c in m):
        return from_nd(np.array([i for i, c in enumerate(m) if c], dtype=int))
    one, zero = z3.IntVal(1), z3.IntVal(0)
    rank = [zero]
    for c in m:
        rank.append(z3.simplify(rank[-1] + (z3.If(alg.b_bool(c), one, zero))))
    vals = []
    for k in range(N):
        e = z3.IntVal(N - 1)
        for i in range(N - 2, k - 1, -1):
            e = z3.If(z3.And(alg.b_bool(m[i]), rank[i] == k), z3.IntVal(i), e)
        vals.append(mkI(z3.simplify(e)))
    o = np.empty(N, dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    return SymArray(o, 'i', mkI(rank[-1]), dom=N)


class Flat:
    """ndarray.flat: iteration and (C order) element access"""

    def __init__(self, a):
        self.a = a

    def __iter__(self):
        return iter(self.a.ravel())

    def __len__(self):
        return self.a.size

    def __getitem__(self, k):
        return self.a.ravel()[k]

    def __setitem__(self, k, v):
        r = self.a.ravel().copy()
        r[k] = v
        self.a[...] = r.reshape(self.a.shape)
