"""Units of verification: one per function under contract (plus lemmas and bindings); each yields named obligations."""
import signal
import threading
import time
from values import Unsupported
from cexec import Ex, sig
import contracts as K

DEFAULT_TAGS = {"safety": ("C14",), "terminates": ("C14",), "requires": ("C14",)}


class Unit:
    def __init__(self, name, kind, anchor=""):
        self.name, self.kind, self.anchor = name, kind, anchor
        self.obls, self.calls, self.error, self.exec_s, self.ex = [], set(), None, 0.0, None

    def finish(self, t0):
        self.exec_s = time.time() - t0
        for o in self.obls:
            o.tags = o.tags or DEFAULT_TAGS.get(o.kind, ())
        return self


class Source:
    """the repository's current sources, read on demand"""
    def __init__(self):
        self._prog = self._sigs = self._b = self._m = None

    @property
    def prog(self):
        if self._prog is None:
            from castload import Program
            self._prog = Program()
            self._sigs = {}
            for fn in self._prog.defs.values():
                self._sigs.setdefault(sig(self._prog, fn), fn)
        return self._prog

    @property
    def bindings(self):
        if self._b is None:
            from bindings import Bindings
            self._b = Bindings()
        return self._b

    @property
    def mods(self):
        if self._m is None:
            import pyexec
            self._m = pyexec.load()
        return self._m

    @property
    def sigs(self):
        self.prog
        return self._sigs


def cpp_unit(src, c):
    t0 = time.time()
    fn = src.sigs.get(c.sig)
    u = Unit(c.name, "C++ function", c.sig)
    if fn is None:
        u.error = "no definition of %s in the sources" % c.sig
        return u.finish(t0)
    u.anchor = "%s: %s" % (fn.get("_file", "").split("/repo/")[-1], c.sig)
    ex = Ex(src.prog, {k: v for k, v in K.CONTRACTS.items() if k != c.sig})
    guarded(u, lambda: c.verify(ex, fn) and ex or ex)
    return u.finish(t0)


class Slow(BaseException):
    pass


def _alarm(*_):
    raise Slow


def limited(seconds, f, *a):
    """f(*a), ended by Slow after this many seconds (a runaway of the translator or the prover is not an answer)"""
    if threading.current_thread() is not threading.main_thread():
        return f(*a)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


LIMIT = [100, 250]      # seconds for the translation of one unit, and of all units of a property together


def guarded(u, f):
    t0 = time.time()
    try:
        if LIMIT[1] <= 0:
            raise Slow
        ex = limited(min(LIMIT), f)
        u.ex = ex
        u.obls = ex.obls
        u.calls = {x.split(":", 1)[1] for x in ex.called if x.startswith("contract:")}
    except Unsupported as e:
        u.error = "outside the verifier's reach: %s" % e
    except Slow:
        u.error = "outside the verifier's reach: no result in time"
    except RecursionError:
        u.error = "outside the verifier's reach: term too deep"
    except Exception as e:          # an unforeseen construct must not look like a violation
        u.error = "the translation failed: %s: %s" % (type(e).__name__, e)
    LIMIT[1] -= time.time() - t0


def py_unit(src, name, f, anchor):
    t0 = time.time()
    u = Unit(name, "lemma" if name.startswith("lemma") else "Python binding" if name.startswith("Python ") else "Python function", anchor)
    guarded(u, lambda: f(src))
    return u.finish(t0)


def registry():
    r = {}
    for c in K.CONTRACTS.values():
        r[c.name] = (lambda src, c=c: cpp_unit(src, c))
    import pycontracts as P
    for n, (f, a) in P.units().items():
        r[n] = (lambda src, n=n, f=f, a=a: py_unit(src, n, f, a[0]))
    import bindunits as Bn
    for n, (f, a) in Bn.units().items():
        r[n] = (lambda src, n=n, f=f, a=a: py_unit(src, n, f, a))
    import lemmas as L
    for n, f in L.units().items():
        r[n] = (lambda src, n=n, f=f: py_unit(src, n, f, "consequence of the contracts"))
    return r
