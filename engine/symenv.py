"""Symbolic side of the harness interface, and path exploration."""
import contextlib
import io
import itertools
import math
import random
import signal
import sys
import time
import traceback
import numpy as np
import z3
from . import alg, arr, ctx as _c, symnp
from .alg import S, I, B, Sym, norm, to_s, s_ite, mkB, mkI, b_and, b_or, b_not, _bz, is_sym, zi, to_i
from .arr import SymArray, wrap, from_scalar
from .ctx import Ctx, PathEnd, PathLimit, Fuel, Unsupported
from .env import Violated, RTOL


def _elems(c):
    """flatten a condition into z3/bool conjuncts"""
    if isinstance(c, (list, tuple)):
        out = []
        for x in c:
            out += _elems(x)
        return out
    s = norm(c)
    if s is not None:
        return [_bz(s)]
    w = wrap(c)
    if w.n is not None:
        w = w.fixed()
    return [_bz(v) for v in w.a.reshape(-1)]


class Stop(BaseException):
    pass


class Candidate:
    def __init__(self, name, cond, detail=''):
        self.name, self.cond, self.detail = name, cond, detail


class SymEnv:
    symbolic = True

    def __init__(self, emc2, params=None, rtol=RTOL):
        self.emc2 = emc2
        self.params = params or {}
        self.inputs = {}
        self.ranges = {}
        self.checked = []
        self.failed = []
        self.rtol = rtol
        self.xp = symnp.SYMNP
        self.np = np
        self.open = []
        self.observed = []

    @property
    def gammas(self):
        return _c.CTX.gammas

    # ------------------------------------------------------------ inputs
    def real(self, name, shape=(), lo=None, hi=None, integer=False):
        assert name not in self.inputs
        c = _c.CTX
        o = np.empty(shape, dtype=object)
        zs = []
        for co in np.ndindex(o.shape):
            nm = '%s%s' % (name, list(co) if co else '')
            k = ('var', nm)
            a = alg._BYKEY.get(k)
            if a is None:
                a = alg.new_atom('var', nm, lo=lo, hi=hi)
                alg._BYKEY[k] = a
            o[co] = S(alg.patom(a))
            zs.append(a.z)
            self.ranges[str(a.z)] = (lo, hi)
        self.inputs[name] = ('f', shape, zs)
        return SymArray(o, 'f') if shape != () else o[()]

    def int(self, name, shape=(), lo=0, hi=1):
        c = _c.CTX
        o = np.empty(shape, dtype=object)
        zs = []
        for co in np.ndindex(o.shape):
            z = z3.Int('%s%s' % (name, list(co) if co else ''))
            c.axiom(('int', name, co), z3.And(z >= lo, z <= hi))
            o[co] = I(z)
            zs.append(z)
        self.inputs[name] = ('i', shape, zs)
        return SymArray(o, 'i') if shape != () else o[()]

    def bool(self, name, shape=(), split=False):
        o = np.empty(shape, dtype=object)
        zs = []
        for co in np.ndindex(o.shape):
            z = z3.Bool('%s%s' % (name, list(co) if co else ''))
            zs.append(z)
            o[co] = _c.CTX.fork(z) if split else B(z)
        self.inputs[name] = ('b', shape, zs)
        return SymArray(o, 'b') if shape != () else o[()]

    def array(self, x):
        return wrap(np.asarray(x) if not isinstance(x, SymArray) else x).copy()

    def assume(self, c):
        for e in _elems(c):
            _c.CTX.assume(e)

    # ------------------------------------------------------------- logic
    def all(self, c):
        return mkB(b_and(*_elems(c)))

    def any(self, c):
        return mkB(b_or(*_elems(c)))

    def and_(self, *cs):
        r = cs[0]
        for c in cs[1:]:
            r = symnp.F['logical_and'](r, c)
        return r

    def or_(self, *cs):
        r = cs[0]
        for c in cs[1:]:
            r = symnp.F['logical_or'](r, c)
        return r

    def not_(self, c):
        return symnp.F['logical_not'](c)

    def implies(self, a, b):
        return symnp.F['logical_or'](symnp.F['logical_not'](a), b)

    def ite(self, c, a, b):
        return symnp.F['where'](c, a, b)

    def isnan(self, a):
        return symnp.F['isnan'](a)

    def count(self, mask, axis=None):
        w = wrap(mask).mapped(lambda v: mkB(_bz(v)), 'b')
        return symnp.F['sum'](w.as_kind('i'), axis=axis)

    def b(self, x):
        return symnp.elementwise1(lambda v: mkB(_bz(v)), x, 'b')

    def _close1(self, a, b, r, atol):
        a, b = norm(a), norm(b)
        if not is_sym(a) and not is_sym(b):
            with np.errstate(all='ignore'):
                return bool((a == b) or (a != a and b != b) or abs(a - b) <= r * (abs(a) + abs(b)) + atol)
        a, b = to_s(a), to_s(b)
        fl = b_and(alg.b_eq(a.nan, b.nan), alg.b_eq(a.pinf, b.pinf), alg.b_eq(a.ninf, b.ninf))
        bad = b_or(a.nan, a.pinf, a.ninf)
        if fl is not True and fl is not False:
            # canonicalise: what matters is whether the flags can differ on this path
            if _c.CTX.decide(fl) is True:
                fl = True
        under = [] if bad is False else [alg.b_bool(b_not(bad))]
        if alg.prove_close(a.p, b.p, tol=min(r, 1e-8), under=under):
            return mkB(fl)
        x, y = a.p.z(), b.p.z()
        d = x - y
        ab = lambda t: z3.If(t >= 0, t, -t)
        cl = ab(d) <= alg.rv(r) * (ab(x) + ab(y)) + alg.rv(atol)
        return mkB(b_and(fl, b_or(bad, cl)))

    def close(self, a, b, rtol=None, atol=0.0):
        r = self.rtol if rtol is None else rtol
        return symnp.elementwise2(lambda x, y: self._close1(x, y, r, atol), self.values_of(a), self.values_of(b))

    def le(self, a, b, rtol=1e-9, atol=0.0):
        def f(x, y):
            x, y = norm(x), norm(y)
            if not is_sym(x) and not is_sym(y):
                return bool(x <= y + rtol * (abs(x) + abs(y)) + atol)
            c = _bz(alg.arith('le', x, y))
            if c is True or c is False or _c.CTX.decide(c) is True:
                return True if c is not False else False
            x, y = to_s(x), to_s(y)
            ab = lambda t: z3.If(t >= 0, t, -t)
            zx, zy = x.p.z(), y.p.z()
            near = zx <= zy + alg.rv(rtol) * (ab(zx) + ab(zy)) + alg.rv(atol)
            fin = b_not(b_or(x.nan, y.nan, x.pinf, x.ninf, y.pinf, y.ninf))
            return mkB(b_or(c, b_and(fin, near)))
        return symnp.elementwise2(f, self.values_of(a), self.values_of(b))

    def values_of(self, x):
        if hasattr(x, 'dims') and hasattr(x.data, '_magnitude'):     # a DataArray around a Quantity
            return x.data._magnitude
        v = getattr(x, 'values', x)
        m = getattr(v, 'magnitude', v)
        return m

    # ---------------------------------------------------------- verdicts
    def check(self, name, cond):
        c = _c.CTX
        self.checked.append(name)
        c.stats['checks'] += 1
        bad = [alg.b_not(e) for e in _elems(cond)]
        v = b_or(*bad)
        if v is False:
            return
        v = alg.b_bool(v)
        r = c._check(v, ms=c.check_ms // 3)
        if r == z3.unsat:
            c.stats['check_unsat'] += 1
            return
        self.settle(Candidate(name, v))

    def settle(self, k, end=False):
        r = self.handler(k)
        if r == 'violation':
            raise Stop()
        if end:
            raise PathEnd()

    def fail(self, name, detail=''):
        self.checked.append(name)
        self.settle(Candidate(name, z3.BoolVal(True), detail), end=True)

    def observe(self, name, val):
        self.observed.append((name, self.values_of(val)))

    def returns(self, name, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Unsupported:
            raise
        except Exception as e:
            self.fail(name, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))

    def param(self, name, default=None):
        return self.params.get(name, default)


# ------------------------------------------------------------------ evaluation
def zval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    raise Unsupported('model value %s' % v)


class Evaluator:
    """numeric value of symbolic results under concrete inputs (real exp, log, ...)"""

    def __init__(self, model):
        self.m = model
        self.av = {}
        self.cv = {}

    def atom(self, aid):
        if aid in self.av:
            return self.av[aid]
        a = alg.ATOMS[aid]
        if a.kind == 'var':
            v = zval(self.m, a.z)
        elif a.kind == 'int':
            v = float(self.zint(a.data['e']))
        elif a.kind == 'E':
            v = math.exp(self.poly(a.arg))
        elif a.kind == 'L':
            x = self.poly(a.arg)
            v = math.log(x) if x > 0 else 0.0
        elif a.kind == 'A':
            v = self.poly(a.arg)
        elif a.kind == 'F':
            x = self.poly(a.arg)
            fn = a.data['fn']
            if fn == 'gamma':
                v = symnp.s_gamma(x)
            elif fn == 'erf':
                v = math.erf(x)
            else:
                v = float(getattr(np, fn)(x))
        else:
            raise Unsupported('atom kind ' + a.kind)
        self.av[aid] = v
        return v

    def poly(self, p):
        r = 0.0
        for m, c in p.t.items():
            t = c
            for a, e in m:
                v = self.atom(a)
                try:
                    t *= v ** e if (v != 0 or e >= 0) else 0.0
                except OverflowError:
                    t *= math.inf
                if isinstance(t, complex):
                    t = 0.0
            r += t
        for c, a, b in p.ites.values():
            r += self.poly(a) if self.cond(c) else self.poly(b)
        return r

    def zint(self, e):
        return self._sub(e).as_long()

    def cond(self, c):
        if isinstance(c, bool):
            return c
        k = c.get_id()
        if k not in self.cv:
            v = self._sub(c)
            if not (z3.is_true(v) or z3.is_false(v)):
                v = self.m.eval(c, model_completion=True)
            self.cv[k] = z3.is_true(v)
        return self.cv[k]

    def _sub(self, e):
        vs = {}
        seen = set()

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                vs[t.decl().name()] = t
            for ch in t.children():
                walk(ch)
        walk(e)
        byname = {a.z.decl().name(): a for a in alg.ATOMS if z3.is_const(a.z)}
        bymon = {v.decl().name(): m for m, v in alg._MON.items()}
        sub = []
        for nm, t in vs.items():
            if nm in byname:
                sub.append((t, alg.rv(self._fin(self.atom(byname[nm].id)))))
            elif nm in bymon:
                sub.append((t, alg.rv(self._fin(self.poly(alg.Poly({bymon[nm]: 1.0}))))))
            else:
                sub.append((t, self.m.eval(t, model_completion=True)))
        return z3.simplify(z3.substitute(e, sub))

    @staticmethod
    def _fin(v):
        if math.isnan(v) or math.isinf(v):
            return 0.0
        return v

    def scalar(self, x):
        x = norm(x)
        if isinstance(x, B):
            return float(self.cond(x.e))
        if isinstance(x, I):
            return float(self.zint(x.e))
        if isinstance(x, S):
            if self.cond(x.nan):
                return math.nan
            if self.cond(x.pinf):
                return math.inf
            if self.cond(x.ninf):
                return -math.inf
            return self.poly(x.p)
        return float(x)

    def array(self, x):
        s = norm(x)
        if s is not None:
            return self.scalar(s)
        w = wrap(x)
        n = 0 if w.n is None or w.a.ndim == 0 else int(self.scalar(w.n))
        a = w.a[:n] if w.n is not None else w.a
        o = np.empty(a.shape, dtype=float)
        for co in np.ndindex(a.shape):
            o[co] = self.scalar(a[co])
        return o.tolist()


def values_from(env, model):
    out = {}
    for name, (k, shape, zs) in env.inputs.items():
        vs = [zval(model, z) for z in zs]
        out[name] = np.array(vs, dtype=object).reshape(shape).tolist() if shape != () else vs[0]
    return out


def draws_from(c, model):
    ev = Evaluator(model)
    out = []
    for kind, vs, n in c.draws:
        if kind == 'permutation':
            nn = int(zval(model, n))
            out.append(['permutation', [int(zval(model, v)) for v in vs][:nn]])
        else:
            out.append([kind, [ev.scalar(v) for v in vs]])
    return out


# ----------------------------------------------------------------- exploration
class Result(dict):
    pass


@contextlib.contextmanager
def path_timer(sec):
    def on(*a):
        raise Fuel()
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Funcs:
    """functions of the package that were executed symbolically"""

    def __init__(self):
        from .patch import REPO
        self.root = REPO.rstrip('/') + '/'
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(self.root + 'emc2'):
                self.seen.add('%s:%s' % (co.co_filename[len(self.root):], co.co_qualname))


def explore(emc2, harness, params, opts, native=None, seed=1, prefixes=None, slice_s=None):
    """Run harness over all paths.  native(values, draws) -> result of the real code."""
    alg.reset_atoms()
    c = Ctx(decide_ms=opts.get('decide_ms', 4000), check_ms=opts.get('check_ms', 60000), seed=seed)
    _c.CTX = c
    c.deadline = time.time() + opts.get('budget_s', 300)
    maxp = opts.get('max_paths', 100000)
    validate = opts.get('validate', 3 if prefixes is None else 1)
    maxval = opts.get('max_validate', 8 if prefixes is None else 2)
    res = Result(paths=0, completed=0, violations=[], unreproduced=[], unsupported=[], incomplete=False,
                 checked={}, validated=0, validation_failed=[], traces=[], functions=[])
    stack = [list(p) for p in prefixes] if prefixes is not None else [[]]
    res['rest'] = []
    rnd = random.Random(seed)
    t0 = time.time()
    while stack:
        if res['paths'] and slice_s and time.time() - t0 > (slice_s if len(stack) < 8 else slice_s / 3):
            res['rest'] = stack
            break
        prefix = stack.pop()
        if res['paths'] >= maxp:
            res['incomplete'] = True
            res['why'] = 'path bound %d' % maxp
            break
        c.start(prefix)
        c.pending = []
        env = SymEnv(emc2, params)
        env.handler = lambda k: handle_candidate(c, env, k, res, native, opts, rnd)
        res['paths'] += 1
        prof = None
        if res['paths'] == 1:
            prof = Funcs()
        want_trace = (res['completed'] < validate or (res['paths'] & (res['paths'] - 1)) == 0) and \
            len(res['traces']) < maxval
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if prof:
                    sys.setprofile(prof)
                try:
                    with path_timer(opts.get('path_s', 120)):
                        harness(env)
                finally:
                    sys.setprofile(None)
                    if prof:
                        res['functions'] = sorted(prof.seen)
            res['completed'] += 1
            if want_trace:
                t = path_trace(c, env, rnd)
                if t:
                    res['traces'].append(t)
        except PathEnd:
            pass
        except Stop:
            pass
        except Unsupported as e:
            w = _where()
            res['unsupported'].append('%s | %s' % (e, w))
            # the tail of the path is run concretely, on the real code
            handle_candidate(c, env, Candidate('path tail', z3.BoolVal(True), 'not encoded: %s' % e), res, native,
                             dict(opts, replay_tries=4, replay_s=20), rnd, quiet=True)
            if len(res['unsupported']) > 3:
                break
        except PathLimit as e:
            res['incomplete'] = True
            res['why'] = str(e)
            break
        except (Fuel, RecursionError) as e:
            k = Candidate('terminates', z3.BoolVal(True), 'too many decisions on one path (%s)' % type(e).__name__)
            handle_candidate(c, env, k, res, native, opts, rnd)
        except z3.Z3Exception as e:
            res['unsupported'].append('z3: %s | %s' % (e, _where()))
            if len(res['unsupported']) > 3:
                break
        except (AssertionError,) as e:
            if '/engine/' in traceback.extract_tb(sys.exc_info()[2])[-1].filename:
                raise
            handle_candidate(c, env, Candidate('no exception', z3.BoolVal(True), repr(e)), res, native, opts, rnd)
        except Exception as e:
            k = Candidate('no exception', z3.BoolVal(True),
                          '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:]))
            handle_candidate(c, env, k, res, native, opts, rnd)
        for n in env.checked:
            res['checked'][n] = res['checked'].get(n, 0) + 1
        if res['violations']:
            break
        if len(res['unreproduced']) >= opts.get('max_unreproduced', 4):
            break
        stack.extend(c.pending)
    res['stats'] = dict(c.stats)
    res['wall_s'] = time.time() - t0
    return res


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        if '/emc2/' in f.filename:
            return '%s:%d %s' % (f.filename.split('/emc2/')[-1], f.lineno, f.line)
    return '%s:%d' % (fr[-1].filename, fr[-1].lineno)


def anywhere(env, rnd):
    out = {}
    for n, (k, shape, zs) in env.inputs.items():
        v = []
        for z in zs:
            lo, hi = env.ranges.get(str(z), (None, None))
            lo, hi = -10.0 if lo is None else lo, 10.0 if hi is None else hi
            v.append(float(lo + (hi - lo) * rnd.random()))
        out[n] = np.array(v, dtype=object).reshape(shape).tolist() if shape != () else v[0]
    return out


def path_trace(c, env, rnd):
    """a concrete input of this path, with the results the encoding predicts for it"""
    try:
        r = full_check(c, [], ms=8000, rnd=rnd)
        if r is None and not (c.pc or c.draws or env.observed or any(k != 'f' for k, _, _ in env.inputs.values())):
            # nothing was decided on this path: any input takes it
            return dict(values=anywhere(env, rnd), draws=[], obs=[])
        if r is None:
            return None
        values = values_from(env, r)
        ev = Evaluator(r)
        obs = [(n, ev.array(v)) for n, v in env.observed]
        return dict(values=values, draws=draws_from(c, r), obs=obs)
    except (Unsupported, z3.Z3Exception, OverflowError, ZeroDivisionError):
        return None


def full_check(c, extra, ms, rnd=None, defs=True):
    """model of the path condition + extra, with nonlinear definitions; None if none found"""
    s = z3.Solver()
    s.set('timeout', int(ms))
    if rnd is not None:
        s.set('random_seed', rnd.randrange(1 << 30))
    for a in c.base_axioms:
        s.add(a)
    for a in c.pc:
        s.add(a)
    for e in extra:
        s.add(e)
    t = time.time()
    if defs and alg._MON:
        for d in alg.mon_defs():
            s.add(d)
    r = s.check()
    c.stats['queries'] += 1
    c.stats[str(r)] += 1
    c.stats['solver_s'] += time.time() - t
    if r == z3.sat:
        return s.model()
    if r == z3.unsat:
        return False if extra else None
    return None


def handle_candidate(c, env, k, res, native, opts, rnd, quiet=False):
    """decide with the full encoding, then replay on the real code"""
    models = []
    m = full_check(c, [k.cond], opts.get('check_ms', 60000), rnd=None)
    if m is False:
        c.stats['check_unsat'] += 1
        return 'proved'
    if m is not None:
        models.append(m)
    else:
        m = full_check(c, [k.cond], 10000, rnd=None, defs=False)
        if m is False:
            c.stats['check_unsat'] += 1
            return 'proved'
        if m is not None:
            models.append(m)
    tried = 0
    t0 = time.time()
    lim = opts.get('replay_tries', 12)
    last = None
    seen = set()
    while tried < lim and time.time() - t0 < opts.get('replay_s', 90):
        if tried < len(models):
            m = models[tried]
        else:
            # other models: random box constraints on the real inputs
            ex = [k.cond]
            for name, (kd, shape, zs) in env.inputs.items():
                for z in zs:
                    if kd == 'f' and rnd.random() < 0.5:
                        a = [x for x in alg.ATOMS if x.kind == 'var' and x.z.eq(z)]
                        lo = a[0].lo if a and a[0].lo is not None else -10.0
                        hi = a[0].hi if a and a[0].hi is not None else lo + 10.0
                        mid = lo + (hi - lo) * rnd.random()
                        ex.append(z >= alg.rv(mid) if rnd.random() < .5 else z <= alg.rv(mid))
            m = full_check(c, ex, 4000, rnd=rnd)
            if not m:
                m = full_check(c, ex, 2000, rnd=rnd, defs=False)
            if not m:
                tried += 1
                models.append(None)
                continue
            models.append(m)
        tried += 1
        if m is None:
            continue
        try:
            values, draws = values_from(env, m), draws_from(c, m)
        except (Unsupported, z3.Z3Exception, OverflowError):
            continue
        key = repr((values, draws))
        if key in seen or native is None:
            continue
        seen.add(key)
        r = native(values, draws)
        last = r
        if r.get('failed'):
            res['violations'].append(dict(check=r['failed'][0], symbolic_check=k.name, values=values, draws=draws,
                                          detail=k.detail, native=r))
            return 'violation'
    if quiet:
        return 'unreproduced'
    res['unreproduced'].append(dict(check=k.name, detail=k.detail, cond=str(k.cond)[:600], native=last,
                                    values=(values_from(env, models[0]) if models and models[0] else None)))
    return 'unreproduced'
