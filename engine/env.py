"""The interface harnesses are written against.

The same harness function runs in two ways:
  SymEnv  : inputs are symbolic, env.check asks the solver
  ConcEnv : inputs come from a recorded assignment, emc2 is the untouched real
            code, env.check evaluates the assertion on the real results.
"""
import math
import numpy as np


class Violated(Exception):
    def __init__(self, name, detail=''):
        super().__init__(name)
        self.name, self.detail = name, detail


class Discard(BaseException):
    """the concrete values do not satisfy the harness's assumptions"""


RTOL = 1e-6


class ConcEnv:
    symbolic = False

    def __init__(self, emc2, values, params=None, rtol=RTOL):
        self.emc2 = emc2
        self.values = values
        self.params = params or {}
        self.failed = []
        self.checked = []
        self.observed = []
        self.gammas = []
        self.rtol = rtol
        self.xp = np
        self.np = np

    # inputs
    def _get(self, name, shape, dt, default):
        if name in self.values:
            return np.array(self.values[name], dtype=dt).reshape(shape)
        return np.full(shape, default, dtype=dt)

    def real(self, name, shape=(), lo=None, hi=None, integer=False):
        d = 0.0
        if lo is not None:
            d = float(lo)
        elif hi is not None:
            d = float(hi)
        a = self._get(name, shape, float, d)
        if lo is not None and np.any(a < lo - 1e-12 * abs(lo)) or hi is not None and np.any(a > hi + 1e-12 * abs(hi)):
            raise Discard()
        return a if shape != () else float(a)

    def int(self, name, shape=(), lo=0, hi=1):
        a = self._get(name, shape, int, lo)
        if np.any(a < lo) or np.any(a > hi):
            raise Discard()
        return a if shape != () else int(a)

    def bool(self, name, shape=(), split=False):
        a = self._get(name, shape, bool, False)
        return a if shape != () else bool(a)

    def array(self, x):
        return np.array(x)

    def assume(self, c):
        if not np.all(c):
            raise Discard()

    # logic
    def all(self, c):
        return bool(np.all(c))

    def any(self, c):
        return bool(np.any(c))

    def and_(self, *cs):
        r = np.asarray(cs[0], dtype=bool)
        for c in cs[1:]:
            r = np.logical_and(r, c)
        return r

    def or_(self, *cs):
        r = np.asarray(cs[0], dtype=bool)
        for c in cs[1:]:
            r = np.logical_or(r, c)
        return r

    def not_(self, c):
        return np.logical_not(c)

    def implies(self, a, b):
        return np.logical_or(np.logical_not(a), b)

    def ite(self, c, a, b):
        return np.where(c, a, b)

    def isnan(self, a):
        return np.isnan(np.asarray(a, dtype=float))

    def count(self, mask, axis=None):
        return np.sum(np.asarray(mask, dtype=bool).astype(int), axis=axis)

    def b(self, x):
        return np.asarray(x, dtype=float) != 0 if np.asarray(x).dtype != bool else np.asarray(x)

    def close(self, a, b, rtol=None, atol=0.0):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        r = self.rtol if rtol is None else rtol
        with np.errstate(all='ignore'):
            ok = np.abs(a - b) <= r * (np.abs(a) + np.abs(b)) + atol
            ok = ok | ((a == b) | (np.isnan(a) & np.isnan(b)))
        return ok

    def le(self, a, b, rtol=1e-9, atol=0.0):
        """a <= b up to rounding"""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        with np.errstate(all='ignore'):
            return a <= b + rtol * (np.abs(a) + np.abs(b)) + atol

    def values_of(self, x):
        v = getattr(x, 'values', x)
        m = getattr(v, 'magnitude', v)
        return m

    # verdicts
    def check(self, name, cond):
        self.checked.append(name)
        if not np.all(cond):
            self.failed.append(name)

    def fail(self, name, detail=''):
        self.checked.append(name)
        self.failed.append(name)

    def observe(self, name, val):
        self.observed.append((name, np.asarray(self.values_of(val), dtype=float).tolist()))

    def returns(self, name, fn, *a, **k):
        """call fn; an exception is a violation of `name`"""
        try:
            return fn(*a, **k)
        except Exception as e:
            self.fail(name, '%s: %s' % (type(e).__name__, e))
            raise Violated(name, repr(e))

    def param(self, name, default=None):
        return self.params.get(name, default)
