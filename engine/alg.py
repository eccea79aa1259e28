"""Symbolic scalars.

S : extended real (canonical polynomial + nan/+inf/-inf flags)
I : integer (z3 Int)
B : boolean (z3 Bool)

The real part of S is a Poly: a sum  coef * prod(atom ** exponent)  in normal
form, plus "ite atoms" (cond, Poly, Poly) that occur only linearly.  exp, log
and powers are normalised algebraically (exp(a+b) = exp(a)exp(b), log of a
product, ...), so that two ways of writing the same formula give the same
Poly.  Conditions are z3 formulas over the base variables in which nonlinear
monomials and transcendental atoms are real-valued constants constrained by
sign / bound / monotonicity facts.
"""
import itertools
import math
from fractions import Fraction
import z3
from . import ctx as _c
from .ctx import Unsupported

NOISE = 1e-12          # relative size under which a cancelled coefficient is zero
KEYDIG = 9             # digits kept of coefficients inside canonical keys


def ctx():
    return _c.CTX


# --------------------------------------------------------------- z3 helpers
def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    if b is False:
        return b_and(c, a)
    if a is b or (not isinstance(a, bool) and a.eq(b)):
        return a
    return z3.If(c, a, b)


def b_eq(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return b_not(b)
    if b is False:
        return b_not(a)
    if a.eq(b):
        return True
    return a == b


def b_bool(c):
    """python bool -> z3"""
    return z3.BoolVal(c) if isinstance(c, bool) else c


def rv(x):
    f = Fraction(x)
    if f.denominator > 5000:
        # a float that stands for a simple fraction (1/3, 2/7, ...): use the fraction
        g = f.limit_denominator(5000)
        if abs(g - f) * 2 ** 51 <= abs(f):
            f = g
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


# -------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'z', 'lo', 'hi', 'arg', 'data')


ATOMS = []
_BYKEY = {}


def reset_atoms():
    ATOMS.clear()
    _BYKEY.clear()
    _MON.clear()
    _PB.clear()


def new_atom(kind, name, key=None, z=None, lo=None, hi=None, arg=None, data=None):
    if key is not None:
        k = (kind,) + key
        if k in _BYKEY:
            return _BYKEY[k]
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.name = name if kind in ('var', 'int') else '%s!%d' % (name, a.id)
    a.z = z if z is not None else z3.Real(a.name)
    a.lo, a.hi = lo, hi
    a.arg = arg
    a.data = data
    ATOMS.append(a)
    if key is not None:
        _BYKEY[k] = a
    if kind != 'ite':
        if lo is not None:
            ctx().axiom(('lo', a.id), a.z >= rv(lo))
        if hi is not None:
            ctx().axiom(('hi', a.id), a.z <= rv(hi))
    return a


def rexp(e):
    if isinstance(e, int):
        return e
    r = round(e)
    if r and abs(e - r) < 1e-9:
        return int(r)
    for k in (2, 3, 4, 5, 6, 7, 9):
        r = round(e * k)
        if r and abs(e * k - r) < 1e-9 * k:
            return r / k
    return float('%.10g' % e) or 0


def mon_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        o = d.get(a, 0)
        s = rexp(o + e)
        if abs(s) <= 1e-9 * max(abs(o), abs(e)):
            d.pop(a, None)
        else:
            d[a] = s
    return tuple(sorted(d.items()))


def mon_pow(m, c):
    return tuple((a, rexp(e * c)) for a, e in m if rexp(e * c) != 0)


def mon_bounds(m):
    """interval of a monomial from the declared bounds of its atoms"""
    lo, hi = 1.0, 1.0
    for aid, e in m:
        a = ATOMS[aid]
        alo = -math.inf if a.lo is None else float(a.lo)
        ahi = math.inf if a.hi is None else float(a.hi)
        if isinstance(e, int) and e > 0 and (alo < 0):
            if e % 2 == 0:
                pl = 0.0 if alo <= 0 <= ahi else min(abs(alo), abs(ahi)) ** e
                ph = max(abs(alo), abs(ahi)) ** e
            else:
                pl = -math.inf if alo == -math.inf else alo ** e
                ph = math.inf if ahi == math.inf else ahi ** e
        elif alo >= 0:
            try:
                if e > 0:
                    pl, ph = alo ** e, (math.inf if ahi == math.inf else ahi ** e)
                else:
                    pl = 0.0 if ahi == math.inf else (math.inf if ahi == 0 else ahi ** e)
                    ph = math.inf if alo == 0 else alo ** e
            except OverflowError:
                pl, ph = 0.0, math.inf
        else:
            pl, ph = -math.inf, math.inf
        c = []
        for x in (lo, hi):
            for y in (pl, ph):
                c.append(0.0 if x == 0 or y == 0 else x * y)
        if any(math.isnan(v) for v in c):
            return -math.inf, math.inf
        lo, hi = min(c), max(c)
    return lo, hi


def atom_positive(aid):
    """strictly positive, as far as its declared bounds / kind say (or the path)"""
    a = ATOMS[aid]
    if a.lo is not None and a.lo > 0:
        return True
    if a.kind == 'E':
        return True
    if a.kind in ('A',):
        return a.data.get('pos', False)
    return False


_MON = {}


def mon_z(m):
    """z3 Real standing for a monomial"""
    if len(m) == 1 and m[0][1] == 1:
        return ATOMS[m[0][0]].z
    if m in _MON:
        return _MON[m]
    v = z3.Real('m!%d' % len(_MON))
    _MON[m] = v
    lo, hi = mon_bounds(m)
    c = ctx()
    pos = all(atom_positive(a) for a, _ in m)
    if pos:
        c.axiom(('mpos', m), v > 0)
    if lo > -math.inf:
        c.axiom(('mlo', m), v >= rv(lo - 1e-9 * abs(lo)))
    if hi < math.inf:
        c.axiom(('mhi', m), v <= rv(hi + 1e-9 * abs(hi)))
    if not pos:
        sign_lemmas(c, m, v)
    # definition, for the nonlinear (second) stage only
    return v


def sign_lemmas(c, m, v):
    zs, odd = [], []
    for aid, e in m:
        a = ATOMS[aid]
        if atom_positive(aid):
            continue
        zs.append((a.z, e))
        if a.lo is not None and a.lo >= 0:
            continue
        if isinstance(e, int) and e % 2 == 0:
            continue
        if not isinstance(e, int):
            # a real power: non-negative base wherever it is used
            continue
        odd.append(a.z)
    nz = [z != 0 for z, _ in zs]
    neg = z3.BoolVal(False)
    for z in odd:
        neg = z3.Xor(neg, z < 0)
    c.axiom(('msign', m), z3.Implies(z3.And(*nz), z3.And(v != 0, (v < 0) == neg)))
    num = [z == 0 for z, e in zs if e > 0]
    den = [z != 0 for z, e in zs if e < 0]
    if num:
        c.axiom(('mzero', m), z3.Implies(z3.And(z3.Or(*num), *den), v == 0))


def mon_defs():
    """definitions of the monomials with integer exponents"""
    out = []
    for m, v in list(_MON.items()):
        if any(ATOMS[a].kind == 'E' and (abs(e) != 1 or abs(ATOMS[a].data['unit']) != 1) for a, e in m):
            continue  # powers of exponentials: only their lemmas, products would make the query nonlinear in them
        if all(isinstance(e, int) for _, e in m):
            num, den = [], []
            for a, e in m:
                (num if e > 0 else den).extend([ATOMS[a].z] * abs(e))
            p = num[0] if num else z3.RealVal(1)
            for x in num[1:]:
                p = p * x
            if den:
                q = den[0]
                for x in den[1:]:
                    q = q * x
                out.append(z3.Implies(q != 0, v * q == p))
            else:
                out.append(v == p)
        elif all(isinstance(2 * e, int) or float(2 * e).is_integer() for _, e in m):
            # half-integer powers: v^2 == prod a^(2e), v>=0
            num, den = [], []
            for a, e in m:
                k = int(round(2 * e))
                (num if k > 0 else den).extend([ATOMS[a].z] * abs(k))
            p = z3.RealVal(1)
            for x in num:
                p = p * x
            q = v * v
            for x in den:
                q = q * x
            out.append(z3.And(q == p, v >= 0))
    for a in list(ATOMS):
        if a.kind == 'A':
            out.append(a.z == a.arg.z())
    return out


# --------------------------------------------------------------------- Poly
class Poly:
    """t: {monomial: float};  ites: {cond_id: (cond, Poly, Poly)}"""
    __slots__ = ('t', 'ites', '_z', '_key')

    def __init__(self, t=None, ites=None):
        self.t = t or {}
        self.ites = ites or {}
        self._z = None
        self._key = None

    # -- queries
    def is_const(self):
        return not self.ites and (not self.t or (len(self.t) == 1 and () in self.t))

    def const(self):
        return self.t.get((), 0.0)

    def is_zero(self):
        return not self.t and not self.ites

    def single(self):
        """(coef, monomial) when one term and no ite"""
        if self.ites or len(self.t) != 1:
            return None
        (m, c), = self.t.items()
        return c, m

    def z(self):
        if self._z is None:
            s = []
            for m, c in self.t.items():
                if m == ():
                    s.append(rv(c))
                elif c == 1:
                    s.append(mon_z(m))
                else:
                    s.append(rv(c) * mon_z(m))
            for c, a, b in self.ites.values():
                s.append(z3.If(c, a.z(), b.z()))
            self._z = z3.RealVal(0) if not s else (s[0] if len(s) == 1 else z3.Sum(s))
        return self._z

    def key(self):
        if self._key is None:
            k = [(m, float('%.*g' % (KEYDIG, c))) for m, c in self.t.items()]
            k.sort(key=repr)
            i = sorted((cid, a.key(), b.key()) for cid, (c, a, b) in self.ites.items())
            self._key = (tuple(k), tuple(i)) if i else (tuple(k),)
        return self._key

    def scale(self, s):
        if s == 0:
            return Poly()
        if s == 1:
            return self
        return Poly({m: c * s for m, c in self.t.items()},
                    {k: (c, a.scale(s), b.scale(s)) for k, (c, a, b) in self.ites.items()})

    def __repr__(self):
        def ms(m):
            return '*'.join(ATOMS[a].name + ('' if e == 1 else '^%g' % e) for a, e in m)
        s = ['%.6g%s' % (c, '*' + ms(m) if m else '') for m, c in self.t.items()]
        s += ['ite(%s, %r, %r)' % (str(c)[:60].replace('\n', ' '), a, b) for c, a, b in self.ites.values()]
        return ' + '.join(s) or '0'


def pconst(x):
    return Poly({(): float(x)}) if x != 0 else Poly()


def patom(a):
    return Poly({((a.id, 1),): 1.0})


def _acc(d, m, c):
    o = d.get(m)
    if o is None:
        if c != 0:
            d[m] = c
        return
    s = o + c
    if abs(s) <= NOISE * max(abs(o), abs(c)):
        del d[m]
    else:
        d[m] = s


def padd(p, q):
    if p.is_zero():
        return q
    if q.is_zero():
        return p
    t = dict(p.t)
    for m, c in q.t.items():
        _acc(t, m, c)
    if not q.ites:
        return Poly(t, p.ites)
    if not p.ites:
        return Poly(t, q.ites)
    ites = dict(p.ites)
    for k, (c, a, b) in q.ites.items():
        if k in ites:
            _, a0, b0 = ites[k]
            a1, b1 = padd(a0, a), padd(b0, b)
            if a1.key() == b1.key():
                del ites[k]
                r = padd(Poly(t, ites), a1)
                t, ites = dict(r.t), dict(r.ites)
            else:
                ites[k] = (c, a1, b1)
        else:
            ites[k] = (c, a, b)
    return Poly(t, ites)


def pneg(p):
    return p.scale(-1.0)


def psub(p, q):
    return padd(p, pneg(q))


def _mono_scale(p, c0, m0):
    t = {}
    ex = []
    for m, c in p.t.items():
        mm = mon_mul(m, m0)
        # a positive integer power of a sum-atom is expanded again
        bad = [(a, e) for a, e in mm if ATOMS[a].kind == 'A' and isinstance(e, int) and e > 0]
        if bad:
            ex.append((mm, c * c0, bad))
        else:
            _acc(t, mm, c * c0)
    r = Poly(t, {k: (c, _mono_scale(a, c0, m0), _mono_scale(b, c0, m0)) for k, (c, a, b) in p.ites.items()})
    for mm, c, bad in ex:
        rest = tuple((a, e) for a, e in mm if (a, e) not in bad)
        q = Poly({rest: c})
        for a, e in bad:
            for _ in range(e):
                q = pmul(q, ATOMS[a].arg)
        r = padd(r, q)
    return r


def pmul(p, q):
    if p.is_zero() or q.is_zero():
        return Poly()
    if p.is_const():
        return q.scale(p.const())
    if q.is_const():
        return p.scale(q.const())
    if len(p.t) + len(p.ites) > len(q.t) + len(q.ites):
        p, q = q, p
    r = Poly()
    for m, c in p.t.items():
        r = padd(r, _mono_scale(q, c, m))
    for k, (c, a, b) in p.ites.items():
        if k in q.ites:
            _, a2, b2 = q.ites[k]
            rest = Poly(q.t, {kk: v for kk, v in q.ites.items() if kk != k})
            r = padd(r, pite(c, pmul(a, padd(rest, a2)), pmul(b, padd(rest, b2))))
        else:
            r = padd(r, pite(c, pmul(a, q), pmul(b, q)))
    return r


def pite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a.key() == b.key():
        return a
    d = ctx().decide(c)
    if d is True:
        return a
    if d is False:
        return b
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    k = c.get_id()
    ctx().keep.append(c)
    # simplify nested occurrences of the same condition
    a = _assume_cond(a, k, True)
    b = _assume_cond(b, k, False)
    return Poly({}, {k: (c, a, b)})


def _assume_cond(p, k, val):
    if k not in p.ites:
        return p
    c, a, b = p.ites[k]
    rest = Poly(p.t, {kk: v for kk, v in p.ites.items() if kk != k})
    return padd(rest, a if val else b)


def lift(p, f, limit=4096):
    """apply f to a Poly with ites by splitting on the conditions (ites of the result)"""
    if not p.ites:
        return f(p)
    k = next(iter(p.ites))
    c, a, b = p.ites[k]
    rest = Poly(p.t, {kk: v for kk, v in p.ites.items() if kk != k})
    return ('ite', c, lift(padd(rest, a), f), lift(padd(rest, b), f))


_PB = {}


def poly_bounds(p):
    """interval of an ite-free Poly that is multilinear in (powers of) its atoms: its extremes are at corners of the box"""
    k = p.key()
    if k in _PB:
        return _PB[k]
    r = _poly_bounds(p)
    _PB[k] = r
    return r


def _poly_bounds(p):
    none = (-math.inf, math.inf)
    if p.ites or len(p.t) < 2 or len(p.t) > 64:
        return none
    ex, cnt = {}, {}
    for m in p.t:
        for a, e in m:
            if ex.setdefault(a, e) != e:
                return none
            cnt[a] = cnt.get(a, 0) + 1
    if len(ex) > 9:
        return none
    box = []
    for a, e in ex.items():
        lo, hi = mon_bounds(((a, e),))
        if not (math.isfinite(lo) and math.isfinite(hi)):
            return none
        box.append((a, lo, hi))
    L, H, mag = math.inf, -math.inf, 0.0
    terms = [(c, [a for a, _ in m]) for m, c in p.t.items()]
    for pt in itertools.product(*[(lo, hi) if lo != hi else (lo,) for _, lo, hi in box]):
        v = {a: x for (a, _, _), x in zip(box, pt)}
        t = 0.0
        for c, as_ in terms:
            y = c
            for a in as_:
                y *= v[a]
            t += y
            mag = max(mag, abs(y))
        L, H = min(L, t), max(H, t)
    if not (math.isfinite(L) and math.isfinite(H)):
        return none
    sl = 1e-11 * mag
    return L - sl, H + sl


def psign(p):
    """+1 / 0 / -1 known on this path, 'nn' (>=0), 'np' (<=0), None"""
    if p.is_const():
        c = p.const()
        return (c > 0) - (c < 0)
    s = p.single()
    if s:
        c, m = s
        if all(atom_positive(a) for a, _ in m):
            return 1 if c > 0 else -1
    lo, hi = poly_bounds(p)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    z = p.z()
    c = ctx()
    if c.decide(z > 0) is True:
        return 1
    if c.decide(z < 0) is True:
        return -1
    if c.decide(z >= 0) is True:
        return 'nn'
    if c.decide(z <= 0) is True:
        return 'np'
    return None


def content(p):
    """p = mono * rest with the common positive atoms taken out"""
    if p.ites or len(p.t) < 2:
        return (), p
    ms = list(p.t)
    mins = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(mins):
            mins[a] = min(mins[a], d.get(a, 0)) if True else 0
        for a in d:
            if a not in mins and d[a] < 0:
                mins[a] = d[a]
    for a in dict(ms[0]):
        pass
    com = tuple(sorted((a, e) for a, e in mins.items() if e != 0 and atom_positive(a)))
    if not com:
        return (), p
    return com, Poly({mon_mul(m, mon_pow(com, -1)): c for m, c in p.t.items()})


def sum_atom(p, flip=True):
    """(scale, atom) with p = scale * atom; atom stands for a normalised sum"""
    items = sorted(p.t.items(), key=lambda kv: repr(kv[0]))
    lead = items[0][1] if items[0][0] != () or len(items) == 1 else items[1][1]
    sg = psign(p)
    sc = abs(lead)
    if sg in (-1, 'np'):
        sc = -sc
    elif flip and sg is None and lead < 0:
        sc = -sc
    q = p.scale(1.0 / sc)
    a = new_atom('A', 'sum', key=q.key(), arg=q, data={})
    if 'def' not in a.data:
        a.data['def'] = True
        a.data['pos'] = False
        ctx().axiom(('Adef', a.id), a.z == q.z())
        # static positivity: every term positive
        if all(c > 0 and (m == () or all(atom_positive(x) for x, _ in m)) for m, c in q.t.items()):
            a.data['pos'] = True
            a.lo = 0.0
        elif poly_bounds(q)[0] > 0:
            a.data['pos'] = True
            a.lo, a.hi = poly_bounds(q)
            a.lo *= 1 - 1e-9
            a.hi *= 1 + 1e-9
        else:
            lo = 0.0
            for m, c in q.t.items():
                l, h = mon_bounds(m)
                v = c * (l if c > 0 else h)
                lo += v
                if math.isnan(lo):
                    lo = -math.inf
            if lo > 0:
                a.data['pos'] = True
                a.lo = 0.0
            elif lo == 0:
                a.lo = 0.0
    return sc, a


def ppow(p, e):
    """real part of p**e for a constant e (p ite-free)"""
    e = rexp(float(e)) if not isinstance(e, int) else e
    if e == 0:
        return pconst(1.0)
    if e == 1:
        return p
    if p.is_const():
        c = p.const()
        if c == 0:
            return Poly()
        if c < 0 and not isinstance(e, int):
            return Poly()
        try:
            return pconst(c ** e)
        except OverflowError:
            raise Unsupported('overflow in power')
    s = p.single()
    if s:
        c, m = s
        if isinstance(e, int) or (c > 0 and all(
                (atom_positive(a) or (ATOMS[a].lo is not None and ATOMS[a].lo >= 0)) for a, _ in m)):
            r = Poly({mon_pow(m, e): float(c) ** e})
            bad = [a for a, x in mon_pow(m, e) if ATOMS[a].kind == 'A' and isinstance(x, int) and x > 0]
            if bad:
                return _mono_scale(pconst(1.0), float(c) ** e, mon_pow(m, e))
            return r
    if isinstance(e, int) and 0 < e <= 6:
        r = p
        for _ in range(e - 1):
            r = pmul(r, p)
        return r
    com, q = content(p)
    sc, a = sum_atom(q, flip=isinstance(e, int))
    if not isinstance(e, int) and sc < 0:
        return Poly()
    r = Poly({((a.id, e),): float(sc) ** e})
    if com:
        r = _mono_scale(r, 1.0, mon_pow(com, e))
    return r


def plog(p):
    """natural log, p ite-free and assumed positive where it matters"""
    if p.is_const():
        c = p.const()
        return pconst(math.log(c)) if c > 0 else Poly()
    s = p.single()
    if s:
        c, m = s
        if c > 0 and all(atom_positive(a) or (ATOMS[a].lo is not None and ATOMS[a].lo >= 0) for a, _ in m):
            r = pconst(math.log(c))
            for a, e in m:
                r = padd(r, log_atom(a).scale(float(e)))
            return r
        sc, base = abs(c), Poly({m: 1.0 if c > 0 else -1.0})
    else:
        com, q = content(p)
        if com:
            return padd(plog(Poly({com: 1.0})), plog(q))
        sc, a = sum_atom(q)
        if sc > 0:
            return padd(pconst(math.log(sc)), log_atom(a.id))
        sc, base = 1.0, p
    a = new_atom('L', 'log', key=('p', base.key()), arg=base)
    return padd(pconst(math.log(sc)), patom(a))


def log_atom(aid):
    a = ATOMS[aid]
    if a.kind == 'E':
        return a.arg
    l = new_atom('L', 'log', key=('a', aid), arg=patom(a))
    if 'ax' not in (l.data or {}):
        l.data = {'ax': 1}
        c = ctx()
        # log x <= x - 1, sign
        c.axiom(('log1', l.id), z3.Implies(a.z > 0, l.z <= a.z - 1))
        c.axiom(('logs', l.id), z3.Implies(a.z > 0, z3.And((l.z >= 0) == (a.z >= 1), (l.z > 0) == (a.z > 1))))
        for o in ATOMS:
            if o.kind == 'L' and o.id != l.id and o.arg.single():
                x = o.arg.z()
                c.axiom(('logm', l.id, o.id), z3.Implies(z3.And(a.z > 0, x > 0),
                                                         z3.And((l.z <= o.z) == (a.z <= x),
                                                                (l.z == o.z) == (a.z == x))))
    return patom(l)


def exp_atom(m, unit):
    """E_m = exp(unit * m) for a monic monomial m, with the first scale seen as its unit"""
    a = new_atom('E', 'exp', key=(m,), arg=Poly({m: unit}), lo=0.0)
    if a.data is None:
        a.data = {'ax': 1, 'unit': unit}
        c = ctx()
        x = a.arg.z()
        c.axiom(('expp', a.id), a.z > 0)
        c.axiom(('exp1', a.id), a.z >= x + 1)
        c.axiom(('exps', a.id), z3.And((a.z >= 1) == (x >= 0), (a.z == 1) == (x == 0)))
        lo, hi = sorted(v * unit for v in mon_bounds(m)) if unit else (0.0, 0.0)
        if -700 < hi < 700:
            a.hi = math.exp(hi) * (1 + 1e-12)
            c.axiom(('exphi', a.id), a.z <= rv(a.hi))
        if -700 < lo < 700:
            a.lo = math.exp(lo) * (1 - 1e-12)
            c.axiom(('explo', a.id), a.z >= rv(a.lo))
    return a


def pexp(p):
    r = Poly({(): 1.0})
    for m, c in p.t.items():
        if m == ():
            if c > 700:
                raise Unsupported('overflow in exp')
            r = r.scale(math.exp(c))
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'L':
            r = pmul(r, ppow(ATOMS[m[0][0]].arg, rexp(c)))
        else:
            a = exp_atom(m, c)
            r = _mono_scale(r, 1.0, ((a.id, rexp(c / a.data['unit'])),))
    # value lemmas for non-integer powers of exp atoms
    s = r.single()
    if s:
        cc, m = s
        if m and not (len(m) == 1 and m[0][1] == 1):
            v = mon_z(m)
            c = ctx()
            arg = psub(p, pconst(p.const()))
            x = arg.z()
            c.axiom(('mexp', m), z3.And(v > 0, v >= x + 1, (v >= 1) == (x >= 0), (v == 1) == (x == 0)))
    return r


def pfun(fn, p, lo=None, hi=None):
    """opaque function of a Poly"""
    return patom(new_atom('F', fn, key=(fn, p.key()), arg=p, lo=lo, hi=hi, data={'fn': fn}))


# ----------------------------------------------------------- scalar classes
def is_sym(x):
    return isinstance(x, (S, I, B))


def _bz(x):
    """any python/sym boolean -> bool or z3 Bool"""
    if isinstance(x, B):
        return x.e
    if isinstance(x, I):
        r = z3.simplify(x.e != 0)
        return True if z3.is_true(r) else (False if z3.is_false(r) else r)
    if isinstance(x, S):
        return b_or(x.nan, x.pinf, x.ninf, cmp_zero(x.p, 'ne'))
    return bool(x)


def mkB(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return B(e)


def mkI(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return I(e)


def mkS(p, nan=False, pinf=False, ninf=False):
    if nan is True:
        return math.nan
    if pinf is True:
        return math.inf
    if ninf is True:
        return -math.inf
    if nan is False and pinf is False and ninf is False and p.is_const():
        return float(p.const())
    return S(p, nan, pinf, ninf)


def cmp_zero(p, op):
    """p op 0 as bool/z3"""
    if p.is_const():
        c = p.const()
        return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
    if op == 'ne':
        return b_not(cmp_zero(p, 'eq'))
    s = p.single()
    if s:
        c, m = s
        if all(atom_positive(a) for a, _ in m):
            return {'lt': c < 0, 'le': c < 0, 'gt': c > 0, 'ge': c > 0, 'eq': False}[op]
    lo, hi = poly_bounds(p)
    if lo > 0:
        return op in ('gt', 'ge')
    if hi < 0:
        return op in ('lt', 'le')
    if op in ('lt', 'gt'):
        return b_not(cmp_zero(p, 'ge' if op == 'lt' else 'le'))
    # canonical: scale so that the leading coefficient is +1
    if p.t:
        items = sorted(p.t.items(), key=lambda kv: (kv[0] == (), repr(kv[0])))
        lead = items[0][1]
        q = p.scale(1.0 / abs(lead))
        if lead < 0:
            q = pneg(q)
            op = {'le': 'ge', 'ge': 'le', 'eq': 'eq'}[op]
    else:
        q = p
    key = ('cmp', op, q.key())
    k = _BYKEY.get(key)
    if k is None:
        z = q.z()
        k = {'le': z <= 0, 'ge': z >= 0, 'eq': z == 0}[op]
        _BYKEY[key] = k
    return k


def tostr(p):
    return repr(p)


class Sym:
    __array_priority__ = 1000
    __slots__ = ()
    shape = ()
    ndim = 0
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.array_function(func, args, kwargs)

    def __hash__(self):
        return id(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def squeeze(self):
        return self

    @property
    def values(self):
        return self

    @property
    def real(self):
        return self

    imag = 0.0

    @property
    def T(self):
        return self

    def astype(self, dt, **k):
        from . import arr
        return arr.cast(self, arr.kind_of_dtype(dt))

    def round(self, n=0):
        return s_round(self)

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    # arithmetic shared by S / I / B
    def __add__(self, o):
        return arith('add', self, o)

    def __radd__(self, o):
        return arith('add', o, self)

    def __sub__(self, o):
        return arith('sub', self, o)

    def __rsub__(self, o):
        return arith('sub', o, self)

    def __mul__(self, o):
        return arith('mul', self, o)

    def __rmul__(self, o):
        return arith('mul', o, self)

    def __truediv__(self, o):
        return arith('div', self, o)

    def __rtruediv__(self, o):
        return arith('div', o, self)

    def __floordiv__(self, o):
        return arith('floordiv', self, o)

    def __rfloordiv__(self, o):
        return arith('floordiv', o, self)

    def __mod__(self, o):
        return arith('mod', self, o)

    def __rmod__(self, o):
        return arith('mod', o, self)

    def __pow__(self, o):
        return arith('pow', self, o)

    def __rpow__(self, o):
        return arith('pow', o, self)

    def __neg__(self):
        return arith('sub', 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __lt__(self, o):
        return arith('lt', self, o)

    def __le__(self, o):
        return arith('le', self, o)

    def __gt__(self, o):
        return arith('gt', self, o)

    def __ge__(self, o):
        return arith('ge', self, o)

    def __eq__(self, o):
        return arith('eq', self, o)

    def __ne__(self, o):
        return arith('ne', self, o)

    def __and__(self, o):
        return arith('and', self, o)

    def __rand__(self, o):
        return arith('and', o, self)

    def __or__(self, o):
        return arith('or', self, o)

    def __ror__(self, o):
        return arith('or', o, self)

    def __xor__(self, o):
        return arith('xor', self, o)

    def __rxor__(self, o):
        return arith('xor', o, self)

    def __round__(self, n=None):
        return s_round(self) if n else cast_int(s_round(self))


class S(Sym):
    __slots__ = ('p', 'nan', 'pinf', 'ninf')
    import numpy as _np
    dtype = _np.dtype('float64')
    del _np

    def __init__(self, p, nan=False, pinf=False, ninf=False):
        self.p, self.nan, self.pinf, self.ninf = p, nan, pinf, ninf

    def __bool__(self):
        return ctx().fork(_bz(self))

    def __repr__(self):
        return 'S(%r%s)' % (self.p, '' if self.nan is False else ' nan?')

    def __float__(self):
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        return int(cast_int(self))

    def __index__(self):
        raise TypeError('a float cannot be used as an index')

    def __format__(self, spec):
        return '<sym>'

    def isnull(self):
        return mkB(self.nan)


class I(Sym):
    __slots__ = ('e',)
    import numpy as _np
    dtype = _np.dtype('int64')
    del _np

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().fork(_bz(self))

    def __index__(self):
        return ctx().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(ctx().concretize(self.e))

    def __repr__(self):
        return 'I(%s)' % str(self.e)[:80]

    def __format__(self, spec):
        return format(int(self), spec)


class B(Sym):
    __slots__ = ('e',)
    import numpy as _np
    dtype = _np.dtype('bool')
    del _np

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().fork(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __invert__(self):
        return mkB(b_not(self.e))

    def __repr__(self):
        return 'B(%s)' % str(self.e)[:80]


# ---------------------------------------------------------------- coercions
import numpy as _np


def norm(x):
    """numpy / python scalar -> python scalar; symbolic unchanged; None if not a scalar"""
    if isinstance(x, (S, I, B)):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        return float(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0 and x.dtype.kind in 'fiub':
        return norm(x.item())
    return None


def settle(x):
    """drop the flags the path condition rules out"""
    if finite(x):
        return x
    n, p, q = _decide_flag(x.nan), _decide_flag(x.pinf), _decide_flag(x.ninf)
    if n is x.nan and p is x.pinf and q is x.ninf:
        return x
    if n is True:
        return S(Poly(), True)
    if p is True:
        return S(Poly(), False, True)
    if q is True:
        return S(Poly(), False, False, True)
    return S(x.p, n, p, q)


def to_s(x):
    """-> S (non-finite python floats become flags)"""
    if isinstance(x, S):
        return settle(x)
    if isinstance(x, B):
        return S(pite(x.e, pconst(1.0), Poly()))
    if isinstance(x, I):
        return S(int_poly(x.e))
    if isinstance(x, (bool, int)):
        return S(pconst(float(x)))
    x = float(x)
    if math.isnan(x):
        return S(Poly(), True)
    if math.isinf(x):
        return S(Poly(), False, x > 0, x < 0)
    return S(pconst(x))


def int_poly(e):
    if z3.is_int_value(e):
        return pconst(float(e.as_long()))
    if z3.is_add(e):
        r = Poly()
        for ch in e.children():
            r = padd(r, int_poly(ch))
        return r
    if z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        return int_poly(e.arg(1)).scale(float(e.arg(0).as_long()))
    if z3.is_sub(e) and e.num_args() == 2:
        return psub(int_poly(e.arg(0)), int_poly(e.arg(1)))
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return pite(e.arg(0), int_poly(e.arg(1)), int_poly(e.arg(2)))
    ctx().keep.append(e)
    a = new_atom('int', 'int', key=(e.get_id(),), z=z3.ToReal(e), data={'e': e})
    return patom(a)


def to_i(x):
    """int-like -> z3 Int expr or python int"""
    if isinstance(x, I):
        return x.e
    if isinstance(x, B):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return int(x)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def kind(x):
    if isinstance(x, S):
        return 'f'
    if isinstance(x, I):
        return 'i'
    if isinstance(x, B):
        return 'b'
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    return 'f'


def cast_int(x):
    """truncation toward zero (numpy astype(int))"""
    x = norm(x)
    if isinstance(x, I):
        return x
    if isinstance(x, B):
        return mkI(to_i(x))
    if isinstance(x, bool):
        return int(x)
    if not isinstance(x, S):
        if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
            return -2 ** 63
        return int(x)
    p = x.p
    if p.is_const():
        v = zi(int(p.const()))
    else:
        v = _poly_trunc(p)
    bad = b_or(x.nan, x.pinf, x.ninf)
    if bad is not False:
        v = z3.If(bad, z3.IntVal(-2 ** 63), v)
    v = z3.simplify(v) if not isinstance(v, int) else v
    return mkI(v)


def _poly_trunc(p):
    # sum of integer atoms with integer coefficients: exact
    if not p.ites:
        ok = all((m == () or (len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'int')) and
                 float(c).is_integer() for m, c in p.t.items())
        if ok:
            s = []
            for m, c in p.t.items():
                s.append(z3.IntVal(int(c)) if m == () else
                         z3.IntVal(int(c)) * ATOMS[m[0][0]].data['e'])
            return z3.simplify(z3.Sum(s)) if s else z3.IntVal(0)
        z = p.z()
        return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
    if len(p.ites) == 1:
        (c, a, b), = p.ites.values()
        rest = Poly(p.t)
        return z3.If(c, _poly_trunc(padd(rest, a)), _poly_trunc(padd(rest, b)))
    z = p.z()
    return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))


def s_floor(x, up=False):
    x = norm(x)
    if isinstance(x, (I, B)):
        return to_s_val(x)
    if not isinstance(x, S):
        return float(_np.ceil(x) if up else _np.floor(x))

    def f(p):
        if p.is_const():
            return pconst(float(math.ceil(p.const()) if up else math.floor(p.const())))
        z = p.z()
        e = -z3.ToInt(-z) if up else z3.ToInt(z)
        return int_poly(e)
    return mkS(join_ite(lift(x.p, f)), x.nan, x.pinf, x.ninf)


def s_round(x):
    """round half to even"""
    x = norm(x)
    if isinstance(x, (I, B)):
        return x
    if not isinstance(x, S):
        return float(_np.round(x)) if isinstance(x, float) else x

    def f(p):
        if p.is_const():
            return pconst(float(_np.round(p.const())))
        if all((m == () or (len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'int')) and
               float(c).is_integer() for m, c in p.t.items()):
            return p
        key = ('round', p.key())
        if key in _BYKEY:
            return _BYKEY[key]
        z = p.z()
        k = z3.Int('rnd!%d' % len(_BYKEY))
        kr = z3.ToReal(k)
        h = z3.RealVal('1/2')
        c = ctx()
        c.axiom(key, z3.And(z - kr <= h, kr - z <= h,
                            z3.Implies(z3.Or(z - kr == h, kr - z == h), k % 2 == 0)))
        r = int_poly(k)
        a = ATOMS[list(r.t)[0][0][0]]
        a.data['round'] = p
        _BYKEY[key] = r
        return r
    return mkS(join_ite(lift(x.p, f)), x.nan, x.pinf, x.ninf)


def to_s_val(x):
    s = to_s(x)
    return mkS(s.p, s.nan, s.pinf, s.ninf)


def join_ite(t):
    if isinstance(t, Poly):
        return t
    return pite(t[1], join_ite(t[2]), join_ite(t[3]))


def join_s(t):
    if isinstance(t, tuple) and len(t) == 4 and t[0] == 'ite':
        return s_ite(t[1], join_s(t[2]), join_s(t[3]))
    return t


def s_ite(c, a, b):
    """if c (bool / z3) then a else b, any scalar kinds"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    a, b = norm(a), norm(b)
    ka, kb = kind(a), kind(b)
    if ka == 'b' and kb == 'b':
        return mkB(b_ite(c, _bz(a), _bz(b)))
    if 'f' not in (ka, kb):
        ea, eb = to_i(a), to_i(b)
        if isinstance(ea, int) and isinstance(eb, int) and ea == eb:
            return ea
        d = ctx().decide(c)
        if d is not None:
            return a if d else b
        return mkI(z3.If(c, zi(ea), zi(eb)))
    if not is_sym(a) and not is_sym(b) and (a == b or (a != a and b != b)):
        return a
    d = ctx().decide(c)
    if d is not None:
        return a if d else b
    a, b = to_s(a), to_s(b)
    pa, pb = a.p, b.p
    # the real part under nan/inf is irrelevant: reuse the other branch
    if a.nan is True or a.pinf is True or a.ninf is True:
        pa = pb
    elif b.nan is True or b.pinf is True or b.ninf is True:
        pb = pa
    return mkS(pite(c, pa, pb), b_ite(c, a.nan, b.nan), b_ite(c, a.pinf, b.pinf), b_ite(c, a.ninf, b.ninf))


def finite(x):
    """is S finite on this path for sure (simplifies flags)"""
    return x.nan is False and x.pinf is False and x.ninf is False


def _decide_flag(c):
    if c is True or c is False:
        return c
    d = ctx().decide(c)
    return c if d is None else d


def s_add(a, b):
    p = padd(a.p, b.p)
    if finite(a) and finite(b):
        return mkS(p)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    return mkS(p, nan, b_and(b_or(a.pinf, b.pinf), b_not(nan)), b_and(b_or(a.ninf, b.ninf), b_not(nan)))


def s_neg(a):
    return mkS(pneg(a.p), a.nan, a.ninf, a.pinf)


def _psgn(p):
    """(pos, neg, zero) conditions"""
    return cmp_zero(p, 'gt'), cmp_zero(p, 'lt'), cmp_zero(p, 'eq')


def s_mul(a, b):
    p = pmul(a.p, b.p)
    if finite(a) and finite(b):
        return mkS(p)
    nan, pinf, ninf = b_or(a.nan, b.nan), False, False
    ia, ib = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    if ia is not False or ib is not False:
        ap, an, az = _psgn(a.p)
        bp, bn, bz = _psgn(b.p)
        ap, an = b_or(a.pinf, b_and(b_not(ia), ap)), b_or(a.ninf, b_and(b_not(ia), an))
        bp, bn = b_or(b.pinf, b_and(b_not(ib), bp)), b_or(b.ninf, b_and(b_not(ib), bn))
        az, bz = b_and(b_not(ia), az), b_and(b_not(ib), bz)
        nan = b_or(nan, b_and(ia, bz), b_and(ib, az))
        inf = b_and(b_or(ia, ib), b_not(nan))
        pinf = b_and(inf, b_or(b_and(ap, bp), b_and(an, bn)))
        ninf = b_and(inf, b_or(b_and(ap, bn), b_and(an, bp)))
    return mkS(p, nan, pinf, ninf)


def s_recip_parts(b):
    """1/b as (value, zero-condition); the caller handles b == 0"""
    def f(p):
        if p.is_const():
            return pconst(1.0 / p.const()) if p.const() != 0 else Poly()
        return ppow(p, -1)
    z = _decide_flag(cmp_zero(b.p, 'eq'))
    return join_ite(lift(b.p, f)), z


def s_div(a, b):
    if not isinstance(b, S):
        b = to_s(b)
    r, bz = s_recip_parts(b)
    p = pmul(a.p, r)
    fa, fb = finite(a), finite(b)
    if bz is False and fa and fb:
        return mkS(p)
    ia, ib = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    bz = b_and(bz, b_not(ib))
    az = cmp_zero(a.p, 'eq')
    az = b_and(az, b_not(ia))
    nan = b_or(a.nan, b.nan, b_and(az, bz), b_and(ia, ib))
    inf = b_and(b_or(b_and(bz, b_not(az)), b_and(ia, b_not(ib))), b_not(nan))
    # zero denominators are taken as +0 (as 0*positive products are)
    apos = b_or(a.pinf, b_and(b_not(ia), cmp_zero(a.p, 'gt')))
    bneg = b_and(b_not(ib), cmp_zero(b.p, 'lt'))
    s = b_eq(apos, b_not(bneg)) if bneg is not False else apos
    if ib is not False:
        p = pite(ib, Poly(), p) if ib is not True else Poly()
    return mkS(p, nan, b_and(inf, s), b_and(inf, b_not(s)))


def s_log(x, base=None):
    if not isinstance(x, S):
        with _np.errstate(all='ignore'):
            return float({None: _np.log, 10: _np.log10, 2: _np.log2}[base](x))
    scl = 1.0 if base is None else 1.0 / math.log(base)

    def f(p):
        if p.is_const():
            return s_log(p.const(), base)
        z = _decide_flag(cmp_zero(p, 'eq'))
        n = False if psign(p) in (1, 'nn') else _decide_flag(cmp_zero(p, 'lt'))
        return mkS(plog(p).scale(scl), n, False, z)
    r = join_s(lift(x.p, f))
    if finite(x):
        return r
    r = s_ite(x.pinf, math.inf, r)
    return s_ite(b_or(x.nan, x.ninf), math.nan, r)


def s_exp(x):
    if not isinstance(x, S):
        with _np.errstate(all='ignore'):
            return float(_np.exp(x))

    def f(p):
        return mkS(pexp(p))
    r = join_s(lift(x.p, f))
    if finite(x):
        return r
    r = s_ite(x.pinf, math.inf, r)
    r = s_ite(x.ninf, 0.0, r)
    return s_ite(x.nan, math.nan, r)


def s_pow(a, b):
    """a ** b"""
    bb = norm(b)
    if isinstance(bb, (int, float)):
        a = to_s(a)
        e = bb

        def f(p):
            if p.is_const():
                with _np.errstate(all='ignore'):
                    return float(_np.power(p.const(), float(e)))
            if float(e).is_integer() and e >= 0:
                return mkS(ppow(p, int(e)))
            z = False if e > 0 else _decide_flag(cmp_zero(p, 'eq'))
            n = False
            if not float(e).is_integer():
                n = False if psign(p) in (1, 'nn') else _decide_flag(cmp_zero(p, 'lt'))
            return mkS(ppow(p, rexp(float(e))), n, z, False)
        r = join_s(lift(a.p, f))
        if finite(a):
            return r
        if e > 0:
            r = s_ite(a.pinf, math.inf, r)
        elif e < 0:
            r = s_ite(b_or(a.pinf, a.ninf), 0.0, r)
        else:
            return 1.0
        if a.ninf is not False and e > 0:
            r = s_ite(a.ninf, float(_np.power(-_np.inf, float(e))), r)
        return s_ite(a.nan, math.nan, r)
    # symbolic exponent
    aa = norm(a)
    if not is_sym(aa) and aa > 0:
        return s_exp(norm(arith('mul', b, math.log(aa))))
    la = s_log(to_s(a))
    r = s_exp(norm(arith('mul', b, la)))
    return r


def s_sqrt(x):
    return s_pow(x, 0.5)


def s_abs(x):
    x = norm(x)
    if isinstance(x, B):
        return x
    if isinstance(x, I):
        return mkI(z3.If(x.e >= 0, x.e, -x.e))
    if not isinstance(x, S):
        return abs(x)
    c = cmp_zero(x.p, 'ge')
    return mkS(pite(c, x.p, pneg(x.p)), x.nan, b_or(x.pinf, x.ninf), False)


def s_fun(fn, x, conc, lo=None, hi=None):
    if not is_sym(x):
        return float(conc(x))
    x = to_s(x)

    def f(p):
        if p.is_const():
            return float(conc(p.const()))
        return mkS(pfun(fn, p, lo, hi))
    r = join_s(lift(x.p, f))
    bad = b_or(x.nan, x.pinf, x.ninf)
    return s_ite(bad, math.nan, r) if bad is not False else r


def s_minmax(a, b, mx, propagate=True):
    ka, kb = kind(a), kind(b)
    if not is_sym(a) and not is_sym(b):
        with _np.errstate(all='ignore'):
            f = (_np.maximum if mx else _np.minimum) if propagate else (_np.fmax if mx else _np.fmin)
            r = f(a, b)
        return norm(r)
    c = _bz(arith('ge' if mx else 'le', a, b))
    if 'f' not in (ka, kb):
        return s_ite(c, a, b)
    r = s_ite(c, a, b)
    na, nb = is_nan(a), is_nan(b)
    if propagate:
        return s_ite(b_or(na, nb), math.nan, r)
    r = s_ite(na, b, r)
    return s_ite(nb, a, r)


def is_nan(x):
    if isinstance(x, S):
        return x.nan
    if isinstance(x, (I, B, bool, int)):
        return False
    return math.isnan(x)


def is_inf(x):
    if isinstance(x, S):
        return b_or(x.pinf, x.ninf)
    if isinstance(x, (I, B, bool, int)):
        return False
    return math.isinf(x)


_CMP = ('lt', 'le', 'gt', 'ge', 'eq', 'ne')


class C:
    """complex number with symbolic parts (scalars only)"""
    __array_ufunc__ = None
    __slots__ = ('real', 'imag')
    shape = ()

    def __init__(self, re, im):
        self.real, self.imag = re, im

    def __add__(self, o):
        return c_arith('add', self, o)

    def __sub__(self, o):
        return c_arith('sub', self, o)

    def __mul__(self, o):
        return c_arith('mul', self, o)

    def __truediv__(self, o):
        return c_arith('div', self, o)

    def __radd__(self, o):
        return c_arith('add', o, self)

    def __rsub__(self, o):
        return c_arith('sub', o, self)

    def __rmul__(self, o):
        return c_arith('mul', o, self)

    def __rtruediv__(self, o):
        return c_arith('div', o, self)

    def __neg__(self):
        return c_arith('sub', 0.0, self)

    def conjugate(self):
        return C(self.real, arith('sub', 0.0, self.imag))

    def __abs__(self):
        return s_sqrt(arith('add', arith('mul', self.real, self.real), arith('mul', self.imag, self.imag)))


def c_arith(op, a, b):
    parts = []
    for x in (a, b):
        if isinstance(x, (C, complex, _np.complexfloating)):
            parts += [x.real, x.imag]
        else:
            if norm(x) is None:
                return NotImplemented
            parts += [norm(x), 0.0]
    p, q, r, s = parts

    def mul(x, y):      # an imaginary part that is exactly zero stays so
        return 0.0 if (not is_sym(x) and x == 0) or (not is_sym(y) and y == 0) else arith('mul', x, y)
    if op in ('add', 'sub'):
        return C(arith(op, p, r), arith(op, q, s))
    if op == 'mul':
        return C(arith('sub', mul(p, r), mul(q, s)), arith('add', mul(p, s), mul(q, r)))
    if op == 'div':
        d = arith('add', mul(r, r), mul(s, s))
        return C(arith('div', arith('add', mul(p, r), mul(q, s)), d), arith('div', arith('sub', mul(q, r), mul(p, s)), d))
    raise Unsupported('complex ' + op)


def arith(op, a, b):
    if isinstance(b, (C, complex, _np.complexfloating)) or isinstance(a, (C, complex, _np.complexfloating)):
        return c_arith(op, a, b)
    na, nb = norm(a), norm(b)
    if na is None or nb is None:
        return NotImplemented
    a, b = na, nb
    if not is_sym(a) and not is_sym(b):
        return conc_arith(op, a, b)
    ka, kb = kind(a), kind(b)
    if op in ('and', 'or', 'xor'):
        if ka == 'b' and kb == 'b':
            x, y = _bz(a), _bz(b)
            return mkB(b_and(x, y) if op == 'and' else b_or(x, y) if op == 'or' else b_not(b_eq(x, y)))
        raise Unsupported('bitwise on symbolic integers')
    isint = 'f' not in (ka, kb)
    if op in _CMP:
        if ka == 'b' and kb == 'b' and op in ('eq', 'ne'):
            r = b_eq(_bz(a), _bz(b))
            return mkB(r if op == 'eq' else b_not(r))
        if isint:
            x, y = to_i(a), to_i(b)
            x, y = zi(x), zi(y)
            r = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op]
            return mkB(z3.simplify(r))
        return mkB(s_cmp(op, to_s(a), to_s(b)))
    if isint and op in ('add', 'sub', 'mul', 'floordiv', 'mod'):
        if ka == 'b' and kb == 'b':
            if op == 'add':
                return mkB(b_or(_bz(a), _bz(b)))
            if op == 'mul':
                return mkB(b_and(_bz(a), _bz(b)))
        x, y = zi(to_i(a)), zi(to_i(b))
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        else:
            yy = z3.simplify(y)
            if not z3.is_int_value(yy) or yy.as_long() <= 0:
                raise Unsupported('integer division by a symbolic value')
            r = (x / yy) if op == 'floordiv' else (x % yy)
        return mkI(z3.simplify(r))
    if isint and op == 'pow' and isinstance(b, int) and b >= 0:
        r = z3.IntVal(1)
        for _ in range(b):
            r = r * zi(to_i(a))
        return mkI(z3.simplify(r))
    if op == 'pow':
        return s_pow(a, b)
    x, y = to_s(a), to_s(b)
    if op == 'add':
        return s_add(x, y)
    if op == 'sub':
        return s_add(x, to_s(s_neg(y)))
    if op == 'mul':
        return s_mul(x, y)
    if op == 'div':
        return s_div(x, y)
    if op == 'floordiv':
        return s_floor(s_div(x, y))
    if op == 'mod':
        q = s_floor(s_div(x, y))
        return arith('sub', a, arith('mul', q, b))
    raise Unsupported('operation ' + op)


def s_cmp(op, a, b):
    if finite(a) and finite(b):
        return cmp_zero(psub(a.p, b.p), op)
    nn = b_not(b_or(a.nan, b.nan))
    fin = b_not(b_or(a.pinf, a.ninf, b.pinf, b.ninf))
    core = cmp_zero(psub(a.p, b.p), op)
    if op == 'ne':
        return b_not(s_cmp('eq', a, b))
    if op == 'eq':
        return b_and(nn, b_or(b_and(fin, core), b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf)))
    if op in ('gt', 'ge'):
        a, b = b, a
        op = 'lt' if op == 'gt' else 'le'
    # a < b / a <= b
    strict = b_or(b_and(a.ninf, b_not(b.ninf)), b_and(b.pinf, b_not(a.pinf)))
    same = False if op == 'lt' else b_or(b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf))
    return b_and(nn, b_or(strict, same, b_and(fin, core)))


_CONC = {'add': _np.add, 'sub': _np.subtract, 'mul': _np.multiply, 'div': _np.true_divide,
         'floordiv': _np.floor_divide, 'mod': _np.mod, 'pow': _np.power, 'lt': _np.less, 'le': _np.less_equal,
         'gt': _np.greater, 'ge': _np.greater_equal, 'eq': _np.equal, 'ne': _np.not_equal,
         'and': _np.bitwise_and, 'or': _np.bitwise_or, 'xor': _np.bitwise_xor}


def conc_arith(op, a, b):
    with _np.errstate(all='ignore'):
        if op == 'sub' and isinstance(a, bool) and isinstance(b, bool):
            raise TypeError('numpy boolean subtract')
        if op == 'pow' and isinstance(a, int) and isinstance(b, int) and b < 0:
            return float(a) ** b
        return norm(_CONC[op](a, b))


# ------------------------------------------------- closeness of expressions
def _conds(p, out):
    for k, (cc, a, b) in p.ites.items():
        out.setdefault(k, cc)
        _conds(a, out)
        _conds(b, out)


def _subst(p, k, val):
    if not p.ites:
        return p
    r = Poly(p.t)
    for kk, (cc, a, b) in p.ites.items():
        if kk == k:
            r = padd(r, _subst(a if val else b, k, val))
        else:
            a2, b2 = _subst(a, k, val), _subst(b, k, val)
            if a2.key() == b2.key():
                r = padd(r, a2)
            else:
                r = padd(r, Poly({}, {kk: (cc, a2, b2)}))
    return r


def leaf_close(p, q, tol):
    """p, q ite-free: same terms up to relative coefficient noise (after clearing denominators)"""
    def left(p, q):
        out = {}
        top = max([abs(c) for c in p.t.values()] + [abs(c) for c in q.t.values()] + [0.0])
        for m in set(p.t) | set(q.t):
            c1, c2 = p.t.get(m, 0.0), q.t.get(m, 0.0)
            if abs(c1 - c2) > tol * max(abs(c1), abs(c2)):
                # a lone term that is rounding residue of bigger like terms
                if m == () or (c1 and c2) or max(abs(c1), abs(c2)) > 1e-13 * top:
                    out[m] = (c1, c2)
        return out
    for _ in range(8):
        d = left(p, q)
        if not d:
            return True
        neg = {}
        for m in set(p.t) | set(q.t):
            for a, e in m:
                if ATOMS[a].kind == 'A' and isinstance(e, int) and e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            return False
        a, e = next(iter(neg.items()))
        p = _mono_scale(p, 1.0, ((a, -e),))
        q = _mono_scale(q, 1.0, ((a, -e),))
    return False


def prove_close(p, q, tol=1e-8, limit=3000, under=()):
    """Split on the ite conditions of p and q; True when p and q agree on every feasible leaf."""
    c = ctx()
    budget = [limit]

    def rec(p, q, asm):
        budget[0] -= 1
        if budget[0] < 0:
            return False
        if p.key() == q.key():
            return True
        if not p.ites and not q.ites:
            if leaf_close(p, q, tol):
                return True
            z = psub(p, q).z()
            return c._check(*asm, z != 0) == z3.unsat
        cs = {}
        _conds(p, cs)
        _conds(q, cs)
        k = next(iter(cs))
        cc = cs[k]
        for val in (True, False):
            lit = cc if val else z3.Not(cc)
            if c._check(*asm, lit) == z3.unsat:
                continue
            if not rec(_subst(p, k, val), _subst(q, k, val), asm + [lit]):
                return False
        return True
    ok = rec(p, q, list(under))
    c.stats['algebraic'] += 1 if ok else 0
    return ok
