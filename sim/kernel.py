"""Deterministic simulation kernel.

One `Sim` object is one simulated execution.  While a Sim is active (module
global CUR) every source of nondeterminism the code under test can reach is
answered by it:

* clocks          time.time/gmtime/..., datetime.now        -> Sim.now + node offset
* entropy         os.urandom, random.*, DH private keys     -> Sim.entropy
* files           os.*, io.open, builtins.open, tempfile    -> sim.disk (see disk.py)
* threads         tasks are real threads released one at a time by Sim
* locks           threading.Lock/RLock (created after install()) cooperate

`install()` must run before `openid` is imported (the package does
``from time import time`` in places).  With no Sim active every patched
function behaves exactly like the original.
"""
import builtins
import calendar
import datetime as _datetime_mod
import gc
import hashlib
import io
import os
import random
import sys
import tempfile
import threading
import time
import traceback
import types

REPO = os.environ.get('VERIF_REPO', '/repo')

CUR = None          # the active simulation


class SimCrash(BaseException):
    """The simulated process was killed; unwinds the victim's stack."""


class SimAbort(BaseException):
    """The run is being torn down (step limit, deadlock, verdict reached)."""


class Violation(Exception):
    """An oracle decided that the property does not hold in this run."""

    def __init__(self, cls, message):
        Exception.__init__(self, '%s: %s' % (cls, message))
        self.cls = cls
        self.message = message


class HarnessError(Exception):
    """The harness itself misbehaved."""


REAL = types.SimpleNamespace(      # originals of everything that is patched
    time=time.time, time_ns=time.time_ns, gmtime=time.gmtime, localtime=time.localtime,
    strftime=time.strftime, mktime=time.mktime, ctime=time.ctime, asctime=time.asctime, monotonic=time.monotonic,
    perf_counter=time.perf_counter, sleep=time.sleep, urandom=os.urandom,
    Lock=threading.Lock, RLock=threading.RLock,
    datetime=_datetime_mod.datetime, date=_datetime_mod.date, getpid=os.getpid)


T0 = 1500000000.0          # simulated epoch start (2017-07-14)


class Node(object):
    """A simulated process: a clock offset and a liveness/incarnation flag."""

    def __init__(self, name, offset=0.0):
        self.name = name
        self.offset = offset
        self.alive = True
        self.incarnation = 0

    def restart(self):
        self.incarnation += 1
        self.alive = True


class Ctx(object):
    """Execution context: which node is running and the faults planned for
    the operation in progress.  Fault plan: list of {'at': n, 'kind': k,...}
    keyed by the ordinal of the fault point inside the operation."""

    def __init__(self, node):
        self.node = node
        self.incarnation = node.incarnation
        self.points = 0
        self.faults = {}
        self.hits = []
        self.label = node.name

    def begin_op(self, faults=None, label=None):
        self.points = 0
        self.hits = []
        self.faults = {}
        for f in faults or ():
            self.faults[f['at']] = f
        if label is not None:
            self.label = label


class Task(object):
    def __init__(self, sim, tid, fn, node, name):
        self.sim = sim
        self.tid = tid
        self.fn = fn
        self.name = name
        self.ctx = Ctx(node)
        self.baton = REAL.Lock()
        self.baton.acquire()
        self.done = False
        self.error = None
        self.crashed = False
        self.blocked_until = None     # simulated wake-up time
        self.blocked_on = None        # callable -> bool (ready?)
        self.thread = None


class Scheduler(object):
    """Chooses who runs at each yield point.

    mode 'random'  switch with probability p at every yield point
    mode 'pct'     random priorities with d priority-change points
    mode 'replay'  follow a sparse list of forced switches [[index, tid],...]
    Every actual switch is recorded in `switches`, so that any run can be
    replayed (and minimised) in 'replay' mode.
    """

    def __init__(self, spec):
        spec = spec or {'mode': 'random', 'seed': 0, 'p': 0.3}
        self.spec = spec
        self.mode = spec['mode']
        self.index = 0
        self.switches = []
        self.rng = random.Random('sched-%s' % spec.get('seed', 0))
        self.p = spec.get('p', 0.3)
        self.prio = {}
        self.change = set()
        if self.mode == 'pct':
            horizon = spec.get('horizon', 60)
            for _ in range(spec.get('d', 2)):
                self.change.add(self.rng.randrange(1, horizon))
        self.forced = {}
        if self.mode == 'replay':
            for i, tid in spec.get('switches', []):
                self.forced[i] = tid

    def pick(self, current, runnable):
        """current: tid or None; runnable: sorted list of tids (non-empty)."""
        i = self.index
        self.index += 1
        if self.mode == 'replay':
            want = self.forced.get(i)
            if want is not None and want in runnable:
                choice = want
            elif current in runnable:
                choice = current
            else:
                choice = runnable[0]
        elif self.mode == 'pct':
            for t in runnable:
                if t not in self.prio:
                    self.prio[t] = self.rng.random()
            if i in self.change and current is not None:
                self.prio[current] = -self.rng.random()
            choice = max(runnable, key=lambda t: (self.prio[t], t))
        else:
            if current in runnable and self.rng.random() >= self.p:
                choice = current
            else:
                choice = runnable[self.rng.randrange(len(runnable))]
        if choice != current:
            self.switches.append([i, choice])
        return choice


class Sim(object):
    def __init__(self, seed, sched=None, root=None, max_steps=200000,
                 line_trace=False, shuffle=True, t0=T0, isolate=True):
        self.seed = seed
        self.now = float(t0)
        self.t_start = self.now
        # time zone the machines are set to
        self.tz = random.Random('tz-%s' % (seed,)).choice([0, 0, 19800, -28800, 46800])
        self.root = root                   # scratch dir owned by the sim disk
        self.entropy = random.Random('entropy-%s' % (seed,))
        self.shuffle_rng = random.Random('order-%s' % (seed,)) if shuffle else None
        self.default_node = Node('main')
        self.main_ctx = Ctx(self.default_node)
        self.tasks = []
        self.tls = threading.local()
        self.sched = Scheduler(sched)
        self.steps = 0
        self.max_steps = max_steps
        self.line_trace = line_trace
        self.aborting = None
        self.finished = False
        self.dh_wants = []                 # special key-exchange values for the next keys drawn
        self.dh_privates = []              # exponents drawn
        self.db_gave_up = False            # the database stub reported 'database is locked'
        self.digest = hashlib.sha256()
        self.events = []
        self.keep_events = False
        self.fault_counts = {}
        self.probes = {}
        self.states = set()
        self.seq = 0
        self.current = None                # tid
        self.main_baton = REAL.Lock()
        self.main_baton.acquire()
        self.disk = None
        self.time_step = 0.0               # advance per clock read (0 = stalled)
        self.on_point = None
        self.in_oracle = 0
        self.isolate = isolate             # private module state per process (image.py)
        self.images = None
        self.one_pid = False

    # -- logging ---------------------------------------------------------
    def log(self, *parts):
        self.seq += 1
        line = '%d %.6f %s' % (self.seq, self.now - self.t_start,
                               ' '.join(str(p) for p in parts))
        self.digest.update(line.encode('utf-8', 'backslashreplace'))
        self.digest.update(b'\n')
        if self.keep_events:
            self.events.append(line)

    def count_fault(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(hashlib.md5(repr(parts).encode('utf-8', 'backslashreplace')).hexdigest()[:12])

    # -- context ---------------------------------------------------------
    @property
    def ctx(self):
        t = getattr(self.tls, 'task', None)
        return t.ctx if t is not None else self.main_ctx

    @property
    def task(self):
        return getattr(self.tls, 'task', None)

    def set_node(self, node):
        """Sequential mode: make `node` the running process."""
        ctx = self.ctx
        ctx.node = node
        ctx.incarnation = node.incarnation

    def as_node(self, node, faults=None, label=None):
        """Context manager: the running thread acts as process `node`."""
        return _AsNode(self, node, faults, label)

    def alive(self):
        ctx = self.ctx
        return (not self.finished) and ctx.node.alive and ctx.incarnation == ctx.node.incarnation

    def node_time(self):
        ctx = self.ctx
        if self.time_step:
            self.now += self.time_step
        return self.now + ctx.node.offset

    def advance(self, dt):
        self.now += dt

    def crash(self):
        """Kill the running process, now."""
        ctx = self.ctx
        ctx.node.alive = False
        self.log('CRASH', ctx.node.name)
        raise SimCrash(ctx.node.name)

    # -- fault points and scheduling --------------------------------------
    def point(self, kind, detail=''):
        """Called before every intercepted effect.  Returns the fault planned
        for this point (or None), after giving other tasks a chance to run."""
        if self.finished:
            raise SimCrash('finished')
        if self.in_oracle:
            return None
        ctx = self.ctx
        if not ctx.node.alive or ctx.incarnation != ctx.node.incarnation:
            raise SimCrash(ctx.node.name)
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort('step-limit')
        n = ctx.points
        ctx.points += 1
        self.log('pt', ctx.label, n, kind, detail)
        self.maybe_switch()
        # the node may have died while we were descheduled
        if not ctx.node.alive or ctx.incarnation != ctx.node.incarnation:
            raise SimCrash(ctx.node.name)
        f = ctx.faults.get(n)
        if f is not None:
            ctx.hits.append(dict(f, point=kind))
        if self.on_point is not None:
            self.on_point(kind, detail, f)
        return f

    def line_point(self):
        if self.finished:
            raise SimCrash('finished')
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort('step-limit')
        self.maybe_switch()

    def abort(self, why):
        if self.aborting is None:
            self.aborting = why
            self.log('ABORT', why)
        raise SimAbort(why)

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.blocked_on is not None:
                if t.blocked_on():
                    t.blocked_on = None
                    t.blocked_until = None
                elif t.blocked_until is not None and t.blocked_until <= self.now:
                    t.blocked_on = None
                    t.blocked_until = None
                else:
                    continue
            elif t.blocked_until is not None:
                if t.blocked_until <= self.now:
                    t.blocked_until = None
                else:
                    continue
            out.append(t.tid)
        return out

    def _next(self, current):
        """tid of the task to run next, or None when all are done."""
        while True:
            r = self._runnable()
            if r:
                return self.sched.pick(current, r)
            wake = [t.blocked_until for t in self.tasks
                    if not t.done and t.blocked_until is not None]
            if wake:
                self.now = max(self.now, min(wake))
                continue
            if any(not t.done for t in self.tasks):
                if self.aborting is None:
                    self.aborting = 'deadlock'
                    self.log('ABORT deadlock')
                # release everybody so that they unwind
                for t in self.tasks:
                    t.blocked_on = None
                continue
            return None

    def maybe_switch(self):
        task = self.task
        if task is None:
            return
        if self.aborting is not None:
            raise SimAbort(self.aborting)
        nxt = self._next(task.tid)
        if nxt != task.tid:
            self._transfer(task, nxt)
        if self.aborting is not None:
            raise SimAbort(self.aborting)

    def _transfer(self, task, nxt):
        self.current = nxt
        self.tasks[nxt].baton.release()
        task.baton.acquire()
        if self.images is not None:
            self.images.switch(task.ctx.node)

    def block(self, ready=None, timeout=None):
        """Block the running task until ready() or `timeout` simulated s."""
        task = self.task
        if task is None:
            if timeout:
                self.now += timeout
                return
            if ready is not None and not ready():
                self.abort('deadlock')
            return
        task.blocked_on = ready
        task.blocked_until = None if timeout is None else self.now + timeout
        self.maybe_switch()

    def _main(self, task):
        task.baton.acquire()
        self.tls.task = task
        if self.images is not None:
            self.images.switch(task.ctx.node)
        try:
            if self.aborting is None:
                if self.line_trace:
                    sys.settrace(self._tracer)
                task.fn()
        except SimCrash:
            task.crashed = True
        except SimAbort:
            task.crashed = True
        except BaseException as why:        # noqa
            task.error = why
            task.tb = traceback.format_exc()
        finally:
            sys.settrace(None)
        task.done = True
        nxt = self._next(None)
        if nxt is None:
            self.main_baton.release()
        else:
            self.current = nxt
            self.tasks[nxt].baton.release()

    def _tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(OPENID_PREFIX) and (self.line_trace is True or f[len(OPENID_PREFIX):].startswith(self.line_trace)):
            return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == 'line':
            self.line_point()
        return self._local_trace

    def run_tasks(self, specs):
        """specs: list of (name, node, fn).  Runs them to completion under the
        seeded scheduler.  Returns the Task objects."""
        base = []
        self.tasks = []
        for name, node, fn in specs:
            t = Task(self, len(self.tasks), fn, node, name)
            t.ctx.label = name
            self.tasks.append(t)
            base.append(t)
        for t in self.tasks:
            t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
            t.thread.start()
        nxt = self._next(None)
        if nxt is not None:
            self.current = nxt
            self.tasks[nxt].baton.release()
            self.main_baton.acquire()
        for t in self.tasks:
            t.thread.join()
        self.tasks = []
        return base

    # -- lifecycle ---------------------------------------------------------
    def __enter__(self):
        global CUR
        if CUR is not None:
            raise HarnessError('nested simulation')
        gc.disable()
        random.seed('global-%s' % (self.seed,))
        self._saved_names = tempfile._name_sequence
        tempfile._name_sequence = _names(random.Random('temp-%s' % (self.seed,)))
        CUR = self
        from . import image
        if self.isolate:
            self.images = image.Images(self)
        else:
            image.pristine().take()
        return self

    def __exit__(self, *exc):
        global CUR
        self.finished = True
        if self.images is not None:
            self.probes['image_switches'] = self.images.switches
            self.images.reset()
            self.images = None
        CUR = None
        tempfile._name_sequence = self._saved_names
        return False

    def oracle(self):
        return _Oracle(self)


class _AsNode(object):
    def __init__(self, sim, node, faults, label):
        self.sim = sim
        self.ctx = Ctx(node)
        self.ctx.begin_op(faults, label or node.name)

    def __enter__(self):
        t = self.sim.task
        if t is not None:
            self.saved, t.ctx = t.ctx, self.ctx
        else:
            self.saved, self.sim.main_ctx = self.sim.main_ctx, self.ctx
        if self.sim.images is not None:
            self.sim.images.switch(self.ctx.node)
        return self.ctx

    def __exit__(self, *exc):
        t = self.sim.task
        if t is not None:
            t.ctx = self.saved
        else:
            self.sim.main_ctx = self.saved
        if self.sim.images is not None:
            self.sim.images.switch(self.saved.node)
        return False


class _Oracle(object):
    """Inside this block the harness inspects state: no yields, no faults."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.sim.in_oracle += 1

    def __exit__(self, *exc):
        self.sim.in_oracle -= 1
        return False


def _names(rng):
    chars = 'abcdefghijklmnopqrstuvwxyz0123456789_'
    while True:
        yield ''.join(rng.choice(chars) for _ in range(8))


OPENID_PREFIX = os.path.join(REPO, 'openid') + os.sep

# ---------------------------------------------------------------------------
# Clock seam


def _now():
    s = CUR
    if s is None or getattr(s.tls, 'raw', False):
        return REAL.time()
    return s.node_time()


def sim_time():
    s = CUR
    return REAL.time() if s is None else s.node_time()


def sim_time_ns():
    return int(sim_time() * 1e9) if CUR is not None else REAL.time_ns()


def sim_gmtime(secs=None):
    return REAL.gmtime(_now() if secs is None else secs)


def sim_localtime(secs=None):
    if CUR is None:
        return REAL.localtime(secs)
    return REAL.gmtime((_now() if secs is None else secs) + CUR.tz)


def sim_mktime(t):
    if CUR is None:
        return REAL.mktime(t)
    return float(calendar.timegm(tuple(t)[:6] + (0, 0, 0)) - CUR.tz)


def sim_strftime(fmt, t=None):
    return REAL.strftime(fmt, sim_localtime() if t is None else t)


def sim_ctime(secs=None):
    return REAL.asctime(sim_localtime(secs))


def sim_asctime(t=None):
    return REAL.asctime(sim_localtime() if t is None else t)


def sim_monotonic():
    s = CUR
    return REAL.monotonic() if s is None else (s.now - s.t_start + 1000.0)


def sim_perf_counter():
    s = CUR
    return REAL.perf_counter() if s is None else (s.now - s.t_start + 1000.0)


def sim_sleep(secs):
    s = CUR
    if s is None:
        return REAL.sleep(secs)
    s.point('sleep', '%.3f' % secs)
    if s.task is None:
        s.now += max(0, secs)
    else:
        s.block(timeout=max(0, secs))


class _DTMeta(type(REAL.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL.datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL.datetime)


class SimDatetime(REAL.datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        if CUR is None:
            return REAL.datetime.now(tz)
        base = REAL.datetime.fromtimestamp(_now(), _datetime_mod.timezone.utc)
        if tz is None:
            return base.replace(tzinfo=None) + _datetime_mod.timedelta(seconds=CUR.tz)
        return base.astimezone(tz)

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        if CUR is None or tz is not None:
            return REAL.datetime.fromtimestamp(ts, tz)
        base = REAL.datetime.fromtimestamp(ts, _datetime_mod.timezone.utc)
        return base.replace(tzinfo=None) + _datetime_mod.timedelta(seconds=CUR.tz)

    @classmethod
    def utcnow(cls):
        base = REAL.datetime.fromtimestamp(_now(), _datetime_mod.timezone.utc)
        return base.replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


# ---------------------------------------------------------------------------
# Entropy seam


def sim_urandom(n):
    s = CUR
    if s is None:
        return REAL.urandom(n)
    return bytes(s.entropy.getrandbits(8) for _ in range(n))


# ---------------------------------------------------------------------------
# Locks created by code under test cooperate with the scheduler


class SimLock(object):
    pass

    def __init__(self):
        self._l = REAL.Lock()

    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        if s is None or s.task is None:
            return self._l.acquire(blocking, timeout)
        s.point('lock')
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        got = []

        def ready():
            return not self._held()
        while not self._l.acquire(False):
            if timeout is not None and timeout >= 0:
                s.block(ready, timeout)
                if self._l.acquire(False):
                    return True
                return False
            s.block(ready)
        return True

    def _held(self):
        return self._l.locked()

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __deepcopy__(self, memo):
        return type(self)()

    def _at_fork_reinit(self):
        self._l = REAL.Lock()


class SimRLock(object):
    def __init__(self):
        self._l = REAL.RLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        if s is None or s.task is None:
            r = self._l.acquire(blocking, timeout)
            if r:
                self._owner = threading.get_ident()
                self._count += 1
            return r
        s.point('lock')
        me = threading.get_ident()
        while True:
            if self._owner is None or self._owner == me:
                self._l.acquire()
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            s.block(lambda: self._owner is None,
                    timeout if timeout is not None and timeout >= 0 else None)
            if timeout is not None and timeout >= 0 and self._owner not in (None, me):
                return False

    def release(self):
        if self._owner != threading.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
        self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == threading.get_ident()

    def _release_save(self):
        n, o = self._count, self._owner
        self._count, self._owner = 0, None
        for _ in range(n):
            self._l.release()
        return n, o

    def _acquire_restore(self, state):
        n, o = state
        for _ in range(n):
            self._l.acquire()
        self._count, self._owner = n, o

    def _at_fork_reinit(self):
        self.__init__()


_installed = False


def install():
    """Patch every seam.  Idempotent; must precede the first openid import."""
    global _installed
    if _installed:
        return
    _installed = True
    if any(m == 'openid' or m.startswith('openid.') for m in sys.modules):
        raise HarnessError('openid imported before the seams were installed')
    import logging
    import warnings
    import uuid        # noqa  (imports that must see the real primitives)
    import urllib.request   # noqa
    import http.client      # noqa
    import cryptography.hazmat.backends.openssl   # noqa
    from cryptography.hazmat.backends.openssl import dh as ossl_dh
    from cryptography.hazmat.backends import default_backend
    import lxml.etree  # noqa
    import lxml.html   # noqa
    import sqlite3     # noqa
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    sys.unraisablehook = lambda *a: None
    threading.excepthook = lambda *a: None

    time.time = sim_time
    time.time_ns = sim_time_ns
    time.gmtime = sim_gmtime
    time.localtime = sim_localtime
    time.strftime = sim_strftime
    time.mktime = sim_mktime
    time.ctime = sim_ctime
    time.asctime = sim_asctime
    time.monotonic = sim_monotonic
    time.perf_counter = sim_perf_counter
    time.sleep = sim_sleep
    _datetime_mod.datetime = SimDatetime
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    threading.Lock = SimLock
    threading.RLock = SimRLock
    os.getpid = sim_getpid

    real_gen = ossl_dh._DHParameters.generate_private_key

    known_good = set()

    def sim_generate_private_key(self):
        s = CUR
        if s is None:
            return real_gen(self)
        pn = self.parameter_numbers()
        if (pn.p, pn.g) not in known_good:
            # let OpenSSL judge the parameters exactly as it does in
            # production; only the key it drew is replaced
            real_gen(self)
            if len(known_good) < 64:
                known_good.add((pn.p, pn.g))
        x = s.entropy.randrange(2, 1 << max(2, min(256, pn.p.bit_length() - 2)))
        want = s.dh_wants.pop(0) if s.dh_wants else None
        if want is not None:
            # a rare draw, made likely: a power of `base` (our generator, or the
            # peer's public key) with special leading bits
            base, kind = want
            base = base or pn.g
            v = pow(base, x, pn.p)
            for _ in range(3000):
                if leading_bits(v, pn.p, kind):
                    s.probe('dh_%s_%s' % ('public' if base == pn.g else 'shared', kind))
                    break
                x += 1
                v = v * base % pn.p
        s.dh_privates.append(x)
        y = pow(pn.g, x, pn.p)
        be = default_backend()
        lib, ffi = be._lib, be._ffi
        dh = lib.DH_new()
        be.openssl_assert(dh != ffi.NULL)
        dh = ffi.gc(dh, lib.DH_free)
        q = ffi.NULL if pn.q is None else be._int_to_bn(pn.q)
        be.openssl_assert(lib.DH_set0_pqg(dh, be._int_to_bn(pn.p), q, be._int_to_bn(pn.g)) == 1)
        be.openssl_assert(lib.DH_set0_key(dh, be._int_to_bn(y), be._int_to_bn(x)) == 1)
        return ossl_dh._DHPrivateKey(be, dh, be._dh_cdata_to_evp_pkey(dh))
    ossl_dh._DHParameters.generate_private_key = sim_generate_private_key

    from . import disk
    disk.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def leading_bits(v, p, kind):
    """Does v, written in as many bytes as p, start with a zero byte ('zero')
    or with its top bit set ('high')?"""
    top = v >> (8 * ((p.bit_length() + 7) // 8 - 1))
    return top == 0 if kind == 'zero' else top >= 0x80


def sim_getpid():
    s = CUR
    if s is None:
        return REAL.getpid()
    if s.one_pid:
        return 1
    return 1000 + (int(hashlib.md5(s.ctx.node.name.encode()).hexdigest()[:4], 16) % 30000)
