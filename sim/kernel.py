"""
Simulation kernel: everything a simulated run may read that is not a pure function of its plan goes through here.

One run = one JSON plan, produced by a property's `generate` from one seeded PRNG. Executing a plan is a pure function
of the plan and of the code under test: the clock is virtual, the global RNGs are seeded from the plan, input and disk
are simulated, and asynchronous interrupts are delivered at the k-th executed line of the code under test.
"""
import hashlib
import io
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('AIDEME_REPO', '/repo')  # overridden only while developing the checks against scratch copies
PKG = os.path.join(REPO, 'aideme') + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

real_monotonic = time.monotonic


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(cls, msg)
        self.cls, self.msg = cls, msg


class InjectedFault(Exception):
    """ the exception raised by a failing seam """


class InjectedInterrupt(KeyboardInterrupt):
    """ an asynchronous interrupt, raised at the k-th executed line of the code under test """


class BudgetExceeded(BaseException):
    """ the code under test executed more lines than any terminating run needs """


FAULTS = {
    'error': lambda: InjectedFault('injected'),
    'interrupt': lambda: InjectedInterrupt('injected'),
    'memory': lambda: MemoryError('injected'),
    'os': lambda: OSError(28, 'injected: no space left on device'),
    'value': lambda: ValueError('injected'),
}
INJECTED = (InjectedFault, InjectedInterrupt, MemoryError, OSError, ValueError)


def is_injected(e):
    return isinstance(e, (InjectedFault, InjectedInterrupt)) or 'injected' in str(e)


# ---------------------------------------------------------------- clock
class Clock:
    """ Virtual clock: every read advances it by an amount decided by the run's own PRNG. """

    def __init__(self):
        self.reset(0, 'smooth')

    def reset(self, seed, mode):
        self.rng, self.mode, self.t, self.start, self.reads = random.Random(seed), mode, 1000.0, 1000.0, 0

    def read(self):
        self.reads += 1
        r = self.rng.random()
        if self.mode == 'smooth':
            dt = r * 1e-3
        elif self.mode == 'frozen':
            dt = 0.0
        else:  # 'jumpy': stalls, and jumps of up to hours
            dt = 0.0 if r < .3 else r * 1e-3 if r < .8 else r * 4000
        self.t += dt
        return self.t

    def sleep(self, s):
        self.t += max(0.0, float(s))


CLOCK = Clock()


def install_clock():
    time.perf_counter = time.monotonic = time.time = time.process_time = CLOCK.read
    time.perf_counter_ns = time.monotonic_ns = time.time_ns = lambda: int(CLOCK.read() * 1e9)
    time.sleep = CLOCK.sleep


# ---------------------------------------------------------------- line monitor
MON, TOOL = sys.monitoring, 3


class LineMonitor:
    """
    Counts the executed lines of the code under test. Delivers interrupts at chosen counts, and bounds the total number of
    lines (the progress bound: a loop that never ends is a violation, reported deterministically).

    An interrupt arrives with the first call made at or after the chosen line: that is where time is spent. Two plain
    assignments in a row are never torn apart, so how many statements an update is written in does not matter.
    """
    QUICK = {len, isinstance, issubclass, range, enumerate, zip, getattr, hasattr, setattr, id, type, super, iter, next, callable, min, max, abs, int, float, bool, str, tuple, list, dict, set, slice, repr}
    CONTAINERS = (list, dict, set, tuple, str)

    def __init__(self):
        self.count, self.budget, self.at, self.exc, self.masked_files, self.fired_at = 0, 10 ** 9, None, None, (), None
        self.installed = self.watching_calls = False

    def install(self):
        if not self.installed:
            MON.use_tool_id(TOOL, 'aideme-sim')
            MON.register_callback(TOOL, MON.events.LINE, self.on_line)
            MON.register_callback(TOOL, MON.events.CALL, self.on_call)
            self.installed = True

    def start(self, budget):
        self.install()
        self.count, self.budget, self.at, self.fired_at, self.watching_calls = 0, budget, None, None, False
        MON.set_events(TOOL, MON.events.LINE)

    def stop(self):
        if self.installed:
            MON.set_events(TOOL, 0)
        self.at, self.watching_calls = None, False

    def arm(self, after, exc, masked_files=()):
        """ raise 'exc' in the first call made from the 'after'-th line executed from now on (outside masked files) """
        self.at, self.exc, self.masked_files, self.fired_at = self.count + after, exc, tuple(masked_files), None

    def disarm(self):
        self.at = None
        self.ignore_calls()

    def ignore_calls(self):
        if self.watching_calls:
            self.watching_calls = False
            MON.set_events(TOOL, MON.events.LINE)

    def on_line(self, code, line):
        if not code.co_filename.startswith(PKG):
            return MON.DISABLE
        self.count += 1
        if self.count > self.budget:
            raise BudgetExceeded()
        if self.at is not None and self.count >= self.at and not self.watching_calls:
            self.watching_calls = True
            MON.set_events(TOOL, MON.events.LINE | MON.events.CALL)

    def on_call(self, code, offset, func, first):
        if not code.co_filename.startswith(PKG):
            return MON.DISABLE
        if self.at is None or self.count < self.at or self.is_quick(func) or self.is_masked():
            return
        self.at = None
        self.ignore_calls()
        self.fired_at = (os.path.relpath(code.co_filename, REPO), code.co_name)
        raise self.exc

    def is_quick(self, func):
        try:
            if func in self.QUICK:
                return True
        except TypeError:
            pass
        return getattr(func, '__objclass__', None) in self.CONTAINERS or type(getattr(func, '__self__', None)) in self.CONTAINERS

    def is_masked(self):
        if not self.masked_files:
            return False
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_filename.endswith(self.masked_files):
                return True
            f = f.f_back
        return False


LINES = LineMonitor()


# ---------------------------------------------------------------- run context
class Ctx:
    def __init__(self, keep_log=False):
        self.sha = hashlib.sha256()
        self.events = 0
        self.keep = [] if keep_log else None
        self.faults, self.probes, self.states = {}, {}, set()

    def log(self, *event):
        self.events += 1
        s = repr(event)
        self.sha.update(s.encode())
        self.sha.update(b'\n')
        if self.keep is not None and len(self.keep) < 4000:
            self.keep.append(s[:400])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *sig):
        self.states.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    @staticmethod
    def check(cond, cls, msg=''):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    # arm an asynchronous interrupt around a call
    def interruptible(self, after, kind, masked=()):
        LINES.arm(after, FAULTS[kind](), masked)


def frames_in_package(e):
    tb, found = e.__traceback__, False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            found = True
        tb = tb.tb_next
    return found


BOOTED = False


def boot():
    global BOOTED
    if BOOTED:
        return
    BOOTED = True
    sys.dont_write_bytecode = True
    install_clock()
    ENTROPY.install()
    sys.path.insert(0, REPO)
    from . import ext
    ext.install()
    import warnings
    warnings.simplefilter('ignore')
    import aideme  # noqa
    assert os.path.abspath(aideme.__file__).startswith(PKG), aideme.__file__


class Entropy:
    """ what generators get from the system when they are seeded with nothing: other numbers each time, but decided by the plan """

    def __init__(self):
        self.rng, self.installed = random.Random(0), False

    def reset(self, seed):
        self.rng = random.Random('entropy/{}'.format(seed))

    def install(self):
        import numpy as np
        if self.installed:
            return
        self.installed = True
        np_seed, py_seed, default_rng = np.random.seed, random.seed, np.random.default_rng
        np.random.seed = lambda seed=None: np_seed(self.rng.getrandbits(32) if seed is None else seed)
        random.seed = lambda a=None, version=2: py_seed(self.rng.getrandbits(64) if a is None else a, version)
        np.random.default_rng = lambda seed=None: default_rng(self.rng.getrandbits(64) if seed is None else seed)


ENTROPY = Entropy()


def execute(prop, plan, keep_log=False):
    """
    Runs one plan in this process. Returns a JSON-able outcome; never raises for anything the code under test does.
    """
    import numpy as np
    from aideme.utils import metric_logger
    ctx = Ctx(keep_log)
    CLOCK.reset(plan.get('clock_seed', 0), plan.get('clock', 'smooth'))
    np.random.seed(plan.get('np_seed', 0) & 0xffffffff)
    random.seed(plan.get('np_seed', 0))
    ENTROPY.reset(plan.get('np_seed', 0))
    metric_logger.flush()
    out = {'status': 'ok'}
    old_stdout = sys.stdout
    sys.stdout = io.StringIO()
    np.seterr(all='ignore')
    try:
        LINES.start(plan.get('budget', prop.BUDGET))
        prop.execute(plan, ctx)
    except Violation as v:
        out = {'status': 'violation', 'cls': v.cls, 'msg': v.msg[:2000]}
    except BudgetExceeded:
        out = {'status': 'violation', 'cls': 'no-progress',
               'msg': 'the code under test did not finish within {} executed lines'.format(LINES.budget)}
    except BaseException as e:
        LINES.stop()
        tb = ''.join(traceback.format_exception(e))[-3000:]
        if frames_in_package(e):
            out = {'status': 'violation', 'cls': 'unexpected-' + type(e).__name__, 'msg': tb}
        else:
            out = {'status': 'harness', 'cls': type(e).__name__, 'msg': tb}
    finally:
        LINES.stop()
        sys.stdout = old_stdout
    ctx.log('outcome', out['status'], out.get('cls'))
    out.update(hash=ctx.sha.hexdigest()[:24], events=ctx.events, lines=LINES.count, sim_time=CLOCK.t - CLOCK.start,
               faults=ctx.faults, probes=ctx.probes, states=sorted(ctx.states))
    if keep_log:
        out['log'] = ctx.keep
    return out
