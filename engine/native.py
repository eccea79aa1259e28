"""Concrete replay on the real, unpatched code."""
import contextlib
import io
import json
import os
import signal
import socket
import struct
import sys
import tempfile
import traceback
import numpy as np

from .env import ConcEnv, Violated, Discard


class Hang(BaseException):
    pass


class DrawStub:
    """np.random entry points answered from a recorded list of outcomes"""

    def __init__(self, draws):
        self.draws = list(draws)
        self.gammas = []
        self.rs = np.random.RandomState(0)
        self.short = False

    def _next(self, kind, n):
        for i, (k, v) in enumerate(self.draws):
            if k == kind:
                if len(v) == n:
                    self.draws.pop(i)
                    return v
                self.draws.pop(i)
                break
        self.short = True
        return None

    def permutation(self, x):
        x = np.asarray(x)
        if x.ndim == 0:
            if x.dtype.kind not in 'iub':
                raise TypeError("'float' object cannot be interpreted as an integer")
            n, base = int(x), None
        else:
            n, base = len(x), x
        v = self._next('permutation', n)
        p = np.array(v if v is not None else self.rs.permutation(n), dtype=int)
        return p if base is None else base[p]

    def shuffle(self, x):
        x[...] = self.permutation(np.array(x))

    def choice(self, a, size=None, replace=True, p=None, **k):
        a = np.asarray(a)
        if replace and size is not None:
            return self.rs.choice(a, size, replace, p)
        r = self.permutation(a if a.ndim else int(a))
        return r[0] if size is None else r[:size]

    def gamma(self, shape, scale=1.0, size=None):
        n = 1 if size is None else int(np.prod(size))
        real = self.rs.gamma(shape, scale, size)       # validates the arguments
        v = self._next('gamma', n)
        self.gammas.append((shape, scale, list(np.ravel(real if v is None else v))))
        if v is None:
            return real
        if size is None:
            return float(v[0])
        return np.array(v, dtype=float).reshape(size)

    def default_rng(self, *a, **k):
        return self

    RandomState = Generator = default_rng

    def seed(self, *a, **k):
        pass


@contextlib.contextmanager
def stub_random(draws):
    st = DrawStub(draws)
    names = ['permutation', 'shuffle', 'choice', 'gamma', 'default_rng', 'seed']
    old = {n: getattr(np.random, n) for n in names}
    try:
        for n in names:
            setattr(np.random, n, getattr(st, n))
        yield st
    finally:
        for n, v in old.items():
            setattr(np.random, n, v)


@contextlib.contextmanager
def stub_bag():
    """dask.bag as an in-process ordered map (deterministic order of the draws)"""
    from .patch import BagModule
    mods = []
    for mn, mod in list(sys.modules.items()):
        if mn.startswith('emc2') and mod is not None:
            for name, val in list(mod.__dict__.items()):
                if getattr(val, '__name__', None) == 'dask.bag' and not name.startswith('__'):
                    mods.append((mod, name, val))
                    mod.__dict__[name] = BagModule('dask.bag')
    try:
        yield
    finally:
        for mod, name, val in mods:
            mod.__dict__[name] = val


def run_native(emc2, harness, params, values, draws, timeout=20, rtol=1e-6):
    env = ConcEnv(emc2, values, params, rtol=rtol)
    out = dict(failed=[], detail='', discarded=False)

    def onalarm(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with stub_random(draws) as st, stub_bag(), contextlib.redirect_stdout(io.StringIO()), \
                np.errstate(all='ignore'):
            env.gammas = st.gammas
            harness(env)
        out['failed'] = env.failed
    except Discard:
        out['discarded'] = True
        out['failed'] = []
    except Violated as e:
        out['failed'] = env.failed or [e.name]
        out['detail'] = e.detail
    except Hang:
        out['failed'] = ['terminates']
        out['detail'] = 'no result within %gs' % timeout
    except Exception as e:
        if type(e).__module__.startswith('engine'):
            raise
        out['failed'] = env.failed or ['no exception']
        out['detail'] = '%s: %s' % (type(e).__name__, e)
        out['tb'] = traceback.format_exc()[-2000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    out['obs'] = env.observed
    out['checked'] = env.checked
    return out


class Server:
    """forked before the patches are applied: runs requests on the untouched package"""

    def __init__(self, emc2, get_harness):
        self.dir = tempfile.mkdtemp(prefix='emc2v')
        self.path = os.path.join(self.dir, 's')
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        srv.bind(self.path)
        srv.listen(64)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_IGN)
                ppid = os.getppid()
                srv.settimeout(2.0)
                while True:
                    try:
                        s, _ = srv.accept()
                    except socket.timeout:
                        if os.getppid() != ppid:
                            os._exit(0)
                        continue
                    if os.fork() == 0:
                        srv.close()
                        s.settimeout(None)
                        try:
                            req = recv(s)
                            r = run_native(emc2, get_harness(req['harness']), req['params'], req['values'],
                                           req['draws'], timeout=req.get('timeout', 20))
                        except BaseException as e:
                            r = dict(failed=[], error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])
                        try:
                            send(s, r)
                        finally:
                            os._exit(0)
                    s.close()
            finally:
                os._exit(0)
        srv.close()

    def call(self, harness, params, values, draws, timeout=20):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.settimeout(timeout + 30)
        s.connect(self.path)
        try:
            send(s, dict(harness=harness, params=params, values=values, draws=draws, timeout=timeout))
            return recv(s)
        except (socket.timeout, EOFError, ConnectionError) as e:
            return dict(failed=[], error='no answer from the replay process: %r' % e)
        finally:
            s.close()

    def stop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for f in (self.path,):
            if os.path.exists(f):
                os.unlink(f)
        os.rmdir(self.dir)


def send(s, o):
    b = json.dumps(o).encode()
    s.sendall(struct.pack('>Q', len(b)) + b)


def recv(s):
    def rd(n):
        b = b''
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x:
                raise EOFError
            b += x
        return b
    n, = struct.unpack('>Q', rd(8))
    return json.loads(rd(n))
