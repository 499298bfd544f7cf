"""Simulation engine: what every property check shares.

* seams: simulated clocks (patched before arboris is imported), line-level
  fault injection and preemption through the interpreter's trace hook,
  call wrappers which tell an exception of the code under test from one of the
  harness.
* Ctx: the per-run recorder (event log digest, fault counters, coverage
  signatures, first violation).
"""
import hashlib
import os
import struct
import sys
import time as _time_mod
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'arboris') + os.sep

# --- clocks ---------------------------------------------------------------
real_time = _time_mod.time
real_perf = _time_mod.perf_counter
real_mono = _time_mod.monotonic
real_sleep = _time_mod.sleep


class SimClock:
    """simulated wall clock and monotonic clock; None = not installed"""
    current = None

    def __init__(self, wall=1.0e9, mono=5000.):
        self.wall = wall
        self.mono = mono
        self.cpu = 3.
        self.rate = 1.                # slewed wall clock
        self.reads = 0
        self.sleeps = 0.
        self.step_on_read = None      # callable giving elapsed time per read

    def elapse(self, d, busy=True):
        """time passes; not busy: the process sleeps or is not scheduled"""
        self.wall += d * self.rate
        self.mono += d
        if busy:
            self.cpu += d

    def jump(self, d):
        self.wall += d

    def read(self):
        self.reads += 1
        if self.step_on_read is not None:
            self.elapse(self.step_on_read())


def _mk(kind, real, ns=False):
    def f():
        c = SimClock.current
        if c is None:
            return real()
        c.read()
        v = getattr(c, kind)
        return int(round(v * 1e9)) if ns else v
    f.__name__ = real.__name__
    return f


def _sleep(d):
    c = SimClock.current
    if c is None:
        return real_sleep(d)
    c.sleeps += d
    c.elapse(max(d, 0), busy=False)


def install_clock_seam():
    t = _time_mod
    if getattr(t, '_verif_seam', False):
        return
    t.time = _mk('wall', t.time)
    t.time_ns = _mk('wall', t.time_ns, True)
    for n, kind in (('perf_counter', 'mono'), ('monotonic', 'mono'), ('process_time', 'cpu'), ('thread_time', 'cpu')):
        setattr(t, n, _mk(kind, getattr(t, n)))
        setattr(t, n + '_ns', _mk(kind, getattr(t, n + '_ns'), True))
    real = t.clock_gettime

    def clock_gettime(k):
        if SimClock.current is None:
            return real(k)
        return {t.CLOCK_REALTIME: t.time, t.CLOCK_PROCESS_CPUTIME_ID: t.process_time, t.CLOCK_THREAD_CPUTIME_ID: t.thread_time}.get(k, t.monotonic)()
    t.clock_gettime = clock_gettime
    t.clock_gettime_ns = lambda k: int(round(clock_gettime(k) * 1e9))
    t.sleep = _sleep
    import timeit
    timeit.default_timer = t.perf_counter
    t._verif_seam = True


def import_sut():
    """Import arboris from REPO, after the seams are in place."""
    install_clock_seam()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import numpy
    import numpy.linalg
    import pylab        # noqa: F401  (before the prefix change: keep their caches)
    import h5py         # noqa: F401
    numpy.seterr(all='ignore')
    # never trust cached bytecode of the code under test
    old, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent/verif-pycache'
    try:
        return _import_arboris()
    finally:
        sys.pycache_prefix = old


def _import_arboris():
    import arboris.core
    import arboris.joints
    import arboris.controllers
    import arboris.constraints
    import arboris.collisions
    import arboris.shapes
    import arboris.observers
    import arboris.massmatrix
    assert arboris.core.__file__.startswith(PKG), arboris.core.__file__
    return arboris


def import_visu():
    """the visualisation modules, which nothing else needs"""
    old, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent/verif-pycache'
    try:
        import arboris.visu
        import arboris.visu.dae_writer
        import arboris.visu.visu_collada
    finally:
        sys.pycache_prefix = old
    return arboris.visu


# --- outcomes -------------------------------------------------------------
class Violation(BaseException):
    def __init__(self, cls, msg):
        BaseException.__init__(self, '%s: %s' % (cls, msg))
        self.cls, self.msg = cls, msg


class HarnessError(BaseException):
    pass


class InjectedError(Exception):
    """a fault raised on purpose by the simulator"""


class StepBudget(BaseException):
    """the code under test exceeded its budget of executed lines"""


class Ctx:
    """everything one run observes"""

    def __init__(self, prop):
        self.prop = prop
        self.h = hashlib.sha256()
        self.nlog = 0
        self.counts = {}           # fault kinds that fired, probes
        self.sigs = set()          # distinct states / interleavings
        self.sim_time = 0.
        self.steps = 0
        self.nontrivial = False
        self.first = None          # first violation (cls, msg)
        self.herror = None
        self.trail = []            # short human readable trail
        self.injected = []

    def log(self, *items):
        """append to the event log (digest only, no randomness, no clock)"""
        self.nlog += 1
        h = self.h
        for it in items:
            if isinstance(it, str):
                h.update(it.encode())
            elif isinstance(it, bool) or isinstance(it, int):
                h.update(b'i%d' % int(it))
            elif isinstance(it, float):
                h.update(struct.pack('<d', it))
            elif it is None:
                h.update(b'N')
            elif isinstance(it, bytes):
                h.update(it)
            elif isinstance(it, (list, tuple)):
                for x in it:
                    self.log(x)
            else:
                import numpy
                a = numpy.ascontiguousarray(numpy.asarray(it, dtype=float))
                h.update(a.tobytes())
            h.update(b'|')

    def digest(self):
        return self.h.hexdigest()[:24]

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def sig(self, *parts):
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def note(self, msg):
        if len(self.trail) < 400:
            self.trail.append(msg)

    def fail(self, cls, msg):
        if self.first is None:
            self.first = (cls, msg)
        raise Violation(cls, msg)

    def check(self, ok, cls, msg):
        if not ok:
            self.fail(cls, msg() if callable(msg) else msg)


class sut:
    """with sut(ctx, 'step'): ...   -- an exception leaving the code under test
    is a violation, unless the simulator injected it (then it propagates)."""

    def __init__(self, ctx, what, allow=(), skip=None):
        self.ctx, self.what, self.allow, self.skip = ctx, what, allow, skip

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if self.ctx.herror is not None and not isinstance(ev, HarnessError):
            raise HarnessError(self.ctx.herror)
        if self.ctx.first is not None and not isinstance(ev, Violation):
            raise Violation(*self.ctx.first)
        if et is None:
            return False
        if issubclass(et, (Violation, HarnessError, StepBudget, SystemExit)):
            return False
        if any(ev is i for i in self.ctx.injected):
            return False
        if self.allow and isinstance(ev, self.allow):
            return False
        if self.skip is not None and self.skip():
            return True         # the model left its valid domain: not judged
        where = traceback.extract_tb(tb)
        last = [f for f in where if f.filename.startswith(PKG)]
        if not last:
            # did not go through the code under test at all
            return False
        loc = '%s:%s' % (os.path.basename(last[-1].filename), last[-1].name)
        self.ctx.first = self.ctx.first or (
            'unexpected-exception', '%s raised %s(%s) in %s' % (
                self.what, et.__name__, str(ev)[:160], loc))
        raise Violation(*self.ctx.first) from ev


def cb(method):
    """decorator for harness callbacks called by the code under test"""
    def wrapped(self, *a, **k):
        try:
            return method(self, *a, **k)
        except (Violation, HarnessError, InjectedError, KeyboardInterrupt,
                MemoryError, StepBudget):
            raise
        except BaseException as e:
            ctx = self.ctx
            if any(e is i for i in ctx.injected):
                raise
            # an exception from inside the code under test, reached through the
            # callback, is the code's; a pure harness exception is ours
            fr = traceback.extract_tb(e.__traceback__)
            if fr and fr[-1].filename.startswith(PKG):
                loc = '%s:%s' % (os.path.basename(fr[-1].filename), fr[-1].name)
                ctx.first = ctx.first or ('unexpected-exception', '%s(%s) in %s' % (
                    type(e).__name__, str(e)[:160], loc))
                raise Violation(*ctx.first)
            ctx.herror = ''.join(traceback.format_exception(e))[-1500:]
            raise HarnessError(ctx.herror)
    wrapped.__name__ = method.__name__
    return wrapped


# --- line level seam ---------------------------------------------------------
class LineHook:
    """calls on_line(count, frame) before every executed line of the package
    under test, in the thread where it is entered."""

    def __init__(self, on_line):
        self.on_line = on_line
        self.n = 0

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            self.on_line(self.n, frame)
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


def make_exc(kind):
    import numpy
    return {'error': lambda: InjectedError('injected'),
            'memory': lambda: MemoryError('injected'),
            'interrupt': lambda: KeyboardInterrupt('injected'),
            'linalg': lambda: numpy.linalg.LinAlgError('injected'),
            'float': lambda: FloatingPointError('injected'),
            'io': lambda: OSError(5, 'injected')}[kind]()


class inject_at_line(LineHook):
    """raise an exception of the given kind at the n-th executed line."""

    def __init__(self, ctx, n, kind, only=None):
        LineHook.__init__(self, self._hit)
        self.ctx, self.at, self.kind, self.fired = ctx, n, kind, False
        self.only = only

    def _hit(self, n, frame):
        if n >= self.at and not self.fired and (self.only is None or self.only()):
            self.fired = True
            e = make_exc(self.kind)
            self.ctx.injected.append(e)
            self.ctx.count('fault:line-' + self.kind)
            self.ctx.log('inject', n, self.kind, frame.f_code.co_name)
            self.ctx.note('injected %s at line event %d in %s' % (self.kind, n, frame.f_code.co_name))
            raise e


class line_budget(LineHook):
    def __init__(self, ctx, budget):
        LineHook.__init__(self, self._hit)
        self.ctx, self.budget = ctx, budget

    def _hit(self, n, frame):
        if n > self.budget:
            raise StepBudget('more than %d lines' % self.budget)


def poke(obj, prop, value):
    """Set what the read-only property `prop` of an object of the code under test returns.

    The library gives no public way to do it, and how it stores it is its own business: the
    attribute is found by what the property returns when it is changed."""
    trace = sys.gettrace()
    sys.settrace(None)      # no fault, no preemption in here
    try:
        def shows(x):
            v = getattr(obj, prop)
            return bool(v == x if isinstance(x, float) else (v == x).all())
        probe = 0. * getattr(obj, prop) + 0.6180339887
        if shows(probe):
            probe = probe + 1.
        for n in ['_' + prop] + sorted(vars(obj)):
            if n not in vars(obj):
                continue
            old = vars(obj)[n]
            try:
                setattr(obj, n, probe)
                hit = shows(probe)
            except Exception:
                hit = False
            if hit:
                setattr(obj, n, value)
                return True
            setattr(obj, n, old)
        return False
    finally:
        sys.settrace(trace)


def set_clock(w, t):
    if not poke(w, 'current_time', t):
        from arboris.core import simulate
        simulate(w, [t])
