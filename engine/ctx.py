"""Path context: the solver, the path condition, forking by re-execution.

One Ctx is one exploration of one harness.  A run of the harness follows a
prefix of recorded decisions and, past it, asks the solver.  Every solver
outcome (forks, entailment tests, concretisations) is appended to the trace, so
a re-execution of a prefix costs no solver calls and is deterministic.
"""
import time
import z3

z3.set_param('model.completion', True) if False else None


class PathEnd(BaseException):
    """The current path is finished early (infeasible assumption)."""


class Unsupported(BaseException):
    """The encoding does not cover an operation the code performs."""


class PathLimit(BaseException):
    """Exploration bound reached (inconclusive)."""


class Fuel(BaseException):
    """A single path made too many decisions (possible non-termination)."""


CTX = None


def cur():
    return CTX


class Ctx:
    def __init__(self, decide_ms=4000, check_ms=60000, max_decisions=4000, seed=1):
        self.decide_ms = decide_ms
        self.check_ms = check_ms
        self.max_decisions = max_decisions
        self.seed = seed
        self.stats = dict(paths=0, queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0,
                          forks=0, checks=0, check_unsat=0, algebraic=0)
        self.base_axioms = []       # facts about atoms, valid on every path
        self.ax_seen = set()
        self.keep = []              # keep z3 asts alive (ids are reused otherwise)
        self.trace = []
        self.prefix = []
        self.pending = []
        self.deadline = None
        self._new_solver()

    def _new_solver(self):
        self.solver = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        self.solver.set('random_seed', self.seed)
        for a in self.base_axioms:
            self.solver.add(a)

    # ---- path life cycle
    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.cache = {}
        self.ndec = 0
        self.nfork = 0
        self.counters = {}
        self.draws = []
        self.gammas = []        # (shape, scale, drawn values)
        self.obs = []
        self.stats['paths'] += 1
        self._new_solver()

    def fresh(self, stem):
        n = self.counters.get(stem, 0)
        self.counters[stem] = n + 1
        return '%s#%d' % (stem, n)

    def axiom(self, key, fact):
        """A fact true of every execution (about an atom)."""
        if key in self.ax_seen:
            return
        self.ax_seen.add(key)
        self.base_axioms.append(fact)
        self.solver.add(fact)

    def _check(self, *assumps, ms=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit('time budget of the harness used up')
        self.solver.set('timeout', int(ms or self.decide_ms))
        t = time.time()
        r = self.solver.check(*assumps)
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        self.stats[str(r)] += 1
        return r

    def possible(self, c):
        return self._check(c) != z3.unsat

    def add(self, c):
        """Add to the path condition without asking."""
        self.pc.append(c)
        self.solver.add(c)
        self.cache = {k: v for k, v in self.cache.items() if v[1] is not None}

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.add(c)

    def _rec(self, make):
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = make()
        self.trace.append(v)
        self.ndec += 1
        if self.ndec > self.max_decisions * 50:
            raise Fuel()
        return v

    def decide(self, c):
        """True / False if the path condition settles c, else None (no fork)."""
        if c is True or c is False:
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.cache:
            return self.cache[k][1]

        def make():
            if not self.possible(c):
                return ('d', False)
            if not self.possible(z3.Not(c)):
                return ('d', True)
            return ('d', None)
        v = self._rec(make)
        assert v[0] == 'd', 'replay out of step: %r' % (v,)
        self.cache[k] = (c, v[1])
        return v[1]

    def fork(self, c):
        """Branch on c; returns a python bool and extends the path condition."""
        if c is True or c is False:
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        self.nfork += 1
        if self.nfork > self.max_decisions * 10:
            raise Fuel()
        if k in self.cache and self.cache[k][1] is not None:
            return self.cache[k][1]

        def make():
            t = self.possible(c)
            f = self.possible(z3.Not(c))
            if t and f:
                self.stats['forks'] += 1
                self.pending.append(self.trace + [('f', False, True)])
                return ('f', True, True)
            if t:
                return ('f', True, False)
            if f:
                return ('f', False, False)
            raise PathEnd()
        v = self._rec(make)
        assert v[0] == 'f', 'replay out of step: %r' % (v,)
        if v[2]:
            self.nforks = getattr(self, 'nforks', 0) + 1
            self.add(c if v[1] else z3.Not(c))
        self.cache[k] = (c, v[1])
        if len([1 for t in self.trace if t[0] == 'f']) > self.max_decisions:
            raise Fuel()
        return v[1]

    def concretize(self, e):
        """Fork over the values of an integer expression; returns a python int."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                v = self.prefix[i]
                self.trace.append(v)
            else:
                if self._check() == z3.unsat:
                    raise PathEnd()
                m = self.solver.model()
                val = m.eval(e, model_completion=True).as_long()
                v = ('c', val, True)
                self.trace.append(v)
                if self.possible(e != val):
                    self.pending.append(self.trace[:-1] + [('c', val, False)])
                    self.stats['forks'] += 1
            assert v[0] == 'c', 'replay out of step'
            if v[2]:
                self.add(e == v[1])
                return v[1]
            self.add(e != v[1])
