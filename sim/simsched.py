"""
Deterministic thread simulator.

Real Python threads run strictly one at a time.  Which thread runs next is decided only by a seeded (or replayed)
decider, at scheduling points:

* every operation on a threading primitive (Lock/RLock and everything the standard library builds from them: Condition,
  Event, Semaphore, queue.Queue/SimpleQueue, ThreadPool, ThreadPoolExecutor), Thread.start/join and time.sleep;
* every source line executed in the code under test (sys.monitoring line events; a line stops being a scheduling point
  after it has been executed 1500 times in a run, so a long loop does not hide what follows it).

Time is virtual: it moves when everybody sleeps, and by a fixed amount per scheduling point.
Nothing in here reads a real clock or an unseeded random number.
"""
import sys
import os
import threading
import _thread
import time as _time
import queue
import random
import hashlib

_REAL_ALLOCATE = _thread.allocate_lock
_REAL = {
    'Lock': threading.Lock, 'RLock': threading.RLock, '_allocate_lock': threading._allocate_lock,
    'start': threading.Thread.start, 'join': threading.Thread.join, 'is_alive': threading.Thread.is_alive,
    'sleep': _time.sleep, 'monotonic': _time.monotonic, 'time': _time.time, 'perf_counter': _time.perf_counter,
    'SimpleQueue': queue.SimpleQueue,
}

CURRENT = None          # the active Sim, if any


class Deadlock(Exception):
    pass


class _T:
    __slots__ = ('id', 'name', 'gate', 'done', 'pred', 'deadline', 'points', 'thread', 'exc', 'ident', 'prio',
                 'nopreempt')

    def __init__(self, id_, name):
        self.id = id_
        self.name = name
        self.gate = _REAL_ALLOCATE()
        self.gate.acquire()
        self.done = False
        self.pred = None        # blocked until pred() is true (or deadline reached)
        self.deadline = None
        self.points = 0
        self.thread = None
        self.exc = None
        self.ident = None
        self.prio = 0
        self.nopreempt = 0


# ------------------------------------------------------------------------------------------------------------ deciders
class TraceDecider:
    """Replays a list of [thread, local point, target]. Anything not listed takes the default."""
    kind = 'trace'

    def __init__(self, trace):
        self.map = {(t, p): to for t, p, to in trace}

    def preempt(self, sim, t, site):
        to = self.map.get((t.id, t.points))
        if to is None:
            return None
        return to

    def pick(self, sim, t, ids):
        to = self.map.get((t.id, t.points))
        if to in ids:
            return to
        return ids[0]


class RandomDecider:
    kind = 'random'

    def __init__(self, rng, p):
        self.rng = rng
        self.p = p
        self.left = self._draw()

    def _draw(self):
        # geometric number of points until the next preemption
        n = 1
        r = self.rng.random
        if self.p <= 0:
            return 1 << 60
        import math
        u = r()
        return 1 + int(math.log(1.0 - u) / math.log(1.0 - self.p)) if self.p < 1 else n

    def preempt(self, sim, t, site):
        self.left -= 1
        if self.left > 0:
            return None
        self.left = self._draw()
        ids = [i for i in sim.runnable() if i != t.id]
        if not ids:
            return None
        return self.rng.choice(ids)

    def pick(self, sim, t, ids):
        return self.rng.choice(ids)


class HotSiteDecider:
    """Preempts (almost) only at a random subset of source lines: the same few lines are hit in every thread."""
    kind = 'hot'

    def __init__(self, rng, density, p):
        self.rng = rng
        self.salt = rng.getrandbits(32)
        self.density = density
        self.p = p
        self.hot = {}

    def preempt(self, sim, t, site):
        h = self.hot.get(site)
        if h is None:
            x = hashlib.blake2b(repr((self.salt, site)).encode(), digest_size=4).digest()
            h = self.hot[site] = int.from_bytes(x, 'big') / 2 ** 32 < self.density
        if not h or self.rng.random() > self.p:
            return None
        ids = [i for i in sim.runnable() if i != t.id]
        if not ids:
            return None
        return self.rng.choice(ids)

    def pick(self, sim, t, ids):
        return self.rng.choice(ids)


class NovelDecider:
    """Preempts mostly where a thread is new: the first k times it executes a line, hardly ever in a long loop."""
    kind = 'novel'

    def __init__(self, rng, k, p_new, p_old):
        self.rng, self.k, self.p_new, self.p_old = rng, k, p_new, p_old
        self.n = {}

    def preempt(self, sim, t, site):
        key = (t.id, site)
        n = self.n[key] = self.n.get(key, 0) + 1
        if self.rng.random() >= (self.p_new if n <= self.k else self.p_old):
            return None
        ids = [i for i in sim.runnable() if i != t.id]
        if not ids:
            return None
        return self.rng.choice(ids)

    def pick(self, sim, t, ids):
        return self.rng.choice(ids)


class PCTDecider:
    """Priority based (Burckhardt et al.): highest priority runs, d priority change points."""
    kind = 'pct'

    def __init__(self, rng, depth, horizon):
        self.rng = rng
        self.n = 0
        self.changes = sorted(rng.randrange(1, horizon) for _ in range(depth))
        self.low = 0

    def _prio(self, sim, i):
        t = sim.threads[i]
        if t.prio == 0:
            t.prio = 1 + self.rng.random()
        return t.prio

    def preempt(self, sim, t, site):
        self.n += 1
        if self.changes and self.n >= self.changes[0]:
            self.changes.pop(0)
            self.low -= 1
            t.prio = self.low
        elif site is not None and site[0] != 0:      # line points switch only at change points
            return None
        ids = sim.runnable()
        if len(ids) < 2:
            return None
        best = max(ids, key=lambda i: self._prio(sim, i))
        return best if best != t.id else None

    def pick(self, sim, t, ids):
        return max(ids, key=lambda i: self._prio(sim, i))


class StallDecider:
    """Stalls a thread a few points into an operation the scenario marked, for as long as others have things to do."""
    kind = 'stall'

    def __init__(self, rng, reach, hold, p, q):
        self.rng, self.reach, self.hold, self.p, self.q = rng, reach, hold, p, q
        self.at = {}            # thread -> points left until it stalls
        self.until = {}         # stalled thread -> point count of the simulation at which it may go on

    def mark(self, sim, t):
        if self.rng.random() < self.p:
            self.at[t.id] = self.rng.randint(1, self.reach)

    def _free(self, sim, ids):
        free = [i for i in ids if self.until.get(i, 0) <= sim.points]
        return free or ids

    def preempt(self, sim, t, site):
        stall = False
        n = self.at.get(t.id)
        if n is not None:
            if n <= 1:
                del self.at[t.id]
                self.until[t.id] = sim.points + self.rng.choice(self.hold)
                stall = True
            else:
                self.at[t.id] = n - 1
        if not stall and self.rng.random() >= self.q:
            return None
        ids = [i for i in sim.runnable() if i != t.id]
        ids = [i for i in ids if self.until.get(i, 0) <= sim.points] or (ids if not stall else [])
        return self.rng.choice(ids) if ids else None

    def pick(self, sim, t, ids):
        return self.rng.choice(self._free(sim, ids))


class SerialDecider:
    """Never preempts; used as the baseline schedule."""
    kind = 'serial'

    def __init__(self, rng=None):
        pass

    def preempt(self, sim, t, site):
        return None

    def pick(self, sim, t, ids):
        return ids[0]


def draw_sched(rng, horizon=4000, marks=0.0):
    """Swarm: one scheduling strategy per run. marks: share of the strategy for scenarios that mark their operations."""
    if marks and rng.random() < marks:
        return {'mode': 'stall', 'seed': rng.getrandbits(32), 'reach': rng.choice([2, 4, 8, 20, 60]),
                'hold': rng.choice([[20, 60], [100, 300], [1000], [30, 300, 5000]]), 'p': rng.choice([1.0, 0.6, 0.3]),
                'q': rng.choice([0.0, 0.0, 0.01, 0.1]), 'tick': 1000}
    k = rng.random()
    seed = rng.getrandbits(32)
    tick = rng.choice([1000, 1000, 20000, 2000000])
    if k < 0.20:
        return {'mode': 'novel', 'seed': seed, 'k': rng.choice([1, 1, 2, 5]), 'p': rng.choice([0.5, 0.2, 0.08, 0.03]),
                'q': rng.choice([0.0, 0.0005, 0.005]), 'tick': tick}
    if k < 0.50:
        return {'mode': 'random', 'seed': seed, 'p': rng.choice([0.5, 0.2, 0.08, 0.03, 0.01, 0.003]), 'tick': tick}
    if k < 0.75:
        return {'mode': 'hot', 'seed': seed, 'density': rng.choice([0.3, 0.1, 0.03, 0.01]),
                'p': rng.choice([1.0, 0.5, 0.2]), 'tick': tick}
    if k < 0.97:
        return {'mode': 'pct', 'seed': seed, 'depth': rng.choice([1, 2, 3, 5, 8]),
                'horizon': rng.choice([horizon // 8, horizon, horizon * 6]), 'tick': tick}
    return {'mode': 'serial', 'tick': tick}


def make_decider(spec):
    m = spec['mode']
    if m == 'trace':
        return TraceDecider(spec['trace'])
    rng = random.Random(spec.get('seed', 0))
    if m == 'random':
        return RandomDecider(rng, spec['p'])
    if m == 'novel':
        return NovelDecider(rng, spec['k'], spec['p'], spec['q'])
    if m == 'hot':
        return HotSiteDecider(rng, spec['density'], spec['p'])
    if m == 'stall':
        return StallDecider(rng, spec['reach'], spec['hold'], spec['p'], spec['q'])
    if m == 'pct':
        return PCTDecider(rng, spec['depth'], max(2, spec['horizon']))
    return SerialDecider()


# ----------------------------------------------------------------------------------------------------------- simulator
_TOOL = 3
MAX_VISITS = 1500
_instrumented = False


def instrument(prefix):
    """Asks for a line event at every source line of every function below prefix. Once per process."""
    global _instrumented
    if _instrumented:
        return
    _instrumented = True
    import gc
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, 'verif-sim')
    seen = set()

    def code(c):
        if c in seen:
            return
        seen.add(c)
        if c.co_filename.startswith(prefix):
            mon.set_local_events(_TOOL, c, mon.events.LINE)
        for k in c.co_consts:
            if isinstance(k, type(c)):
                code(k)

    for f in gc.get_objects():
        if isinstance(f, type(instrument)) and f.__code__.co_filename.startswith(prefix):
            code(f.__code__)


class Sim:
    def __init__(self, spec, prefix, on_fatal, max_points=600000, max_time=10 ** 14, trace_lines=True):
        self.decider = make_decider(spec)
        self.tick = spec.get('tick', 1000)
        self.prefix = prefix
        self.on_fatal = on_fatal
        self.max_points = max_points
        self.max_time = max_time
        self.trace_lines = trace_lines
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.now = 1_700_000_000 * 10 ** 9
        self.start = self.now
        self.points = 0
        self.records = []           # decisions that differ from the default: the replayable schedule
        self.hash = hashlib.blake2b(digest_size=8)
        self.nswitch = 0
        self.pairs = set()
        self.fatal_done = False
        self.visits = {}
        self.interrupt_in = None    # the main thread is interrupted in its n-th wait from now
        self.interrupted = False

    # -- life cycle
    def __enter__(self):
        global CURRENT
        assert CURRENT is None
        t = _T(0, 'main')
        t.thread = threading.current_thread()
        t.ident = _thread.get_ident()
        self.threads.append(t)
        self.by_ident[t.ident] = t
        self.cur = t
        CURRENT = self
        if self.trace_lines:
            instrument(self.prefix)
            sys.monitoring.register_callback(_TOOL, sys.monitoring.events.LINE, self._line_point)
        return self

    def __exit__(self, *exc):
        global CURRENT
        if self.trace_lines:
            sys.monitoring.register_callback(_TOOL, sys.monitoring.events.LINE, None)
        CURRENT = None
        return False

    def untraced(self):
        return _Untraced(self)

    # -- introspection
    def runnable(self):
        now = self.now
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is None and t.deadline is None:
                out.append(t.id)
            elif (t.pred is not None and t.pred()) or (t.deadline is not None and t.deadline <= now):
                out.append(t.id)
        return out

    def live(self):
        return [t for t in self.threads if not t.done]

    def schedule_hash(self):
        return self.hash.hexdigest()

    def fatal(self, kind, detail=''):
        if self.fatal_done:
            return
        self.fatal_done = True
        self.on_fatal(kind, detail)     # never returns (writes the result and ends the process)
        os._exit(97)

    def where(self):
        import traceback
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if t.done or t.ident not in frames:
                continue
            st = traceback.extract_stack(frames[t.ident])
            st = [f'{os.path.basename(f.filename)}:{f.name}' for f in st if '/sim/' not in f.filename][-4:]
            out.append(f'T{t.id}({t.name}): ' + ' > '.join(st))
        return '; '.join(out)

    # -- line points
    def _line_point(self, code, line):
        t = self.cur
        if t.ident != _thread.get_ident() or t.nopreempt:
            return None
        t.points += 1
        self.points += 1
        self.now += self.tick
        if self.points > self.max_points:
            self.fatal('no-progress', f'{self.points} scheduling points used: ' + self.where())
        site = (line, code.co_filename)
        to = self.decider.preempt(self, t, site)
        if to is not None:
            self._preempt_to(t, to, (code.co_name, line))
        c = self.visits
        n = c[site] = c.get(site, 0) + 1
        return sys.monitoring.DISABLE if n > MAX_VISITS else None

    def mark(self):
        """The running thread begins an operation worth interrupting."""
        f = getattr(self.decider, 'mark', None)
        if f is not None:
            f(self, self.cur)

    # -- scheduling
    def point(self, what):
        """A scheduling point of the running thread at a primitive operation."""
        t = self.cur
        t.points += 1
        self.points += 1
        self.now += self.tick
        if self.points > self.max_points:
            self.fatal('no-progress', f'{self.points} scheduling points used: ' + self.where())
        if t.nopreempt:
            return
        to = self.decider.preempt(self, t, (0, what))
        if to is not None:
            self._preempt_to(t, to, (what, 0))

    def _preempt_to(self, t, to, site):
        if to == t.id or to >= len(self.threads) or to not in self.runnable():
            return
        self.records.append([t.id, t.points, to])
        self._note(t.id, to, site)
        self._transfer(t, self.threads[to])

    def _note(self, a, b, site):
        self.nswitch += 1
        self.hash.update(repr((a, b, site)).encode())
        if len(self.pairs) < 100000:
            self.pairs.add((a, b, site))

    def _transfer(self, t, target):
        self.cur = target
        if target is t:
            return
        target.gate.release()
        t.gate.acquire()

    def _next(self, t):
        """t cannot continue: choose who runs. Advances the virtual clock when everybody waits for time."""
        while True:
            ids = self.runnable()
            if ids:
                break
            dl = [x.deadline for x in self.threads if not x.done and x.deadline is not None]
            if not dl:
                return None
            self.now = max(self.now, min(dl))
            if self.now - self.start > self.max_time:
                self.fatal('no-progress', f'{(self.now - self.start) / 1e9:.0f} simulated seconds without progress: '
                           + self.where())
        if len(ids) == 1:
            to = ids[0]
        else:
            to = self.decider.pick(self, t, ids)
            if to != ids[0]:
                self.records.append([t.id, t.points, to])
        return self.threads[to]

    def block(self, pred, timeout=None, what='block'):
        """Blocks the running thread until pred() holds. Returns False when the timeout expired first."""
        t = self.cur
        t.points += 1
        self.points += 1
        if self.points > self.max_points:
            self.fatal('no-progress', f'{self.points} scheduling points used: ' + self.where())
        t.pred = pred
        t.deadline = None if timeout is None else self.now + int(timeout * 1e9)
        target = self._next(t)
        if target is None:
            self.fatal('deadlock', self.where())
        if target is not t:
            self._note(t.id, target.id, (what, -1))
            self._transfer(t, target)
        ok = pred() if pred is not None else False
        t.pred = None
        t.deadline = None
        if self.interrupt_in is not None and t.id == 0 and what != 'drain' and not t.nopreempt:
            self.interrupt_in -= 1
            if self.interrupt_in < 0:
                self._interrupt()
        return ok

    def _interrupt(self):
        # what follows an interrupt in the middle of winding up a pool is up to the standard library
        f = sys._getframe(1)
        while f is not None:
            if 'terminate' in f.f_code.co_name or f.f_code.co_name in ('__exit__', '__del__', 'start', '_acquire_restore'):
                return
            f = f.f_back
        self.interrupt_in = None
        self.interrupted = True
        raise KeyboardInterrupt

    def sleep(self, seconds):
        self.point('sleep')
        self.block(None, timeout=max(0.0, seconds), what='sleep')

    # -- threads
    def spawn(self, thread):
        st = _T(len(self.threads), thread.name)
        st.thread = thread
        thread._sim_t = st
        self.threads.append(st)

        def boot():
            st.gate.acquire()
            ident = _thread.get_ident()
            st.ident = ident
            self.by_ident[ident] = st
            thread._ident = ident
            threading._active[ident] = thread
            try:
                thread._native_id = _thread.get_native_id()
            except AttributeError:
                pass
            try:
                thread.run()
            except SystemExit:
                pass
            except BaseException as e:
                st.exc = e
            finally:
                self._exit(st)

        _thread.start_new_thread(boot, ())
        thread._started.set()
        self.point('start')

    def _exit(self, st):
        st.done = True
        threading._active.pop(st.ident, None)
        st.thread._is_stopped = True
        st.points += 1
        target = self._next(st)
        if target is None:
            if self.live():
                self.fatal('deadlock', self.where())
            return
        self._note(st.id, target.id, ('exit', -1))
        self.cur = target
        target.gate.release()

    def drain(self, budget_points=200000, budget_time=3600 * 10 ** 9):
        """Lets every other thread run until it ends or can never run again. True if all of them ended."""
        me = self.cur
        t0 = self.now
        p0 = self.points
        while True:
            others = [t for t in self.threads if t is not me and not t.done]
            if not others:
                return True
            if self.points - p0 > budget_points or self.now - t0 > budget_time:
                return False
            ids = [i for i in self.runnable() if i != me.id]
            if not ids and not any(t.deadline is not None for t in others):
                return False
            self.block(lambda: False, timeout=0.05, what='drain')


class _Untraced:
    """Oracle code runs outside the simulated schedule."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.t = self.sim.cur
        self.t.nopreempt += 1

    def __exit__(self, *a):
        self.t.nopreempt -= 1
        return False


# ---------------------------------------------------------------------------------------------------------- primitives
def _me():
    return _thread.get_ident()


class SimLock:
    def __init__(self):
        self._held = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        if sim is None:
            if self._held:
                if not blocking:
                    return False
                raise Deadlock('lock is held outside a simulation')
            self._held = True
            return True
        sim.point('acquire')
        if self._held:
            if not blocking:
                return False
            to = None if timeout is None or timeout < 0 else timeout
            while self._held:
                if to is None:
                    sim.block(lambda: not self._held, what='lock')
                else:
                    t0 = sim.now
                    if not sim.block(lambda: not self._held, timeout=to, what='lock'):
                        return False
                    to = max(0.0, to - (sim.now - t0) / 1e9)
        self._held = True
        self._owner = _me()
        return True

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False
        self._owner = None
        if CURRENT is not None:
            CURRENT.point('release')

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False
        self._owner = None


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        me = _me()
        if self._owner == me:
            self._count += 1
            return True
        if sim is None:
            if self._count:
                if not blocking:
                    return False
                raise Deadlock('rlock is held outside a simulation')
            self._owner, self._count = me, 1
            return True
        sim.point('acquire')
        if self._count:
            if not blocking:
                return False
            to = None if timeout is None or timeout < 0 else timeout
            while self._count:
                if to is None:
                    sim.block(lambda: self._count == 0, what='rlock')
                else:
                    t0 = sim.now
                    if not sim.block(lambda: self._count == 0, timeout=to, what='rlock'):
                        return False
                    to = max(0.0, to - (sim.now - t0) / 1e9)
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != _me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if CURRENT is not None:
                CURRENT.point('release')

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _me()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count, self._owner = 0, None
        if CURRENT is not None:
            CURRENT.point('release')
        return s

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _recursion_count(self):
        return self._count if self._owner == _me() else 0

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def _start(self):
    if CURRENT is None:
        raise RuntimeError('a thread was started outside the simulation')
    if self._started.is_set():
        raise RuntimeError('threads can only be started once')
    CURRENT.spawn(self)


def _join(self, timeout=None):
    sim = CURRENT
    st = getattr(self, '_sim_t', None)
    if sim is None or st is None:
        return
    sim.point('join')
    if not st.done:
        sim.block(lambda: st.done, timeout=timeout, what='join')


def _is_alive(self):
    st = getattr(self, '_sim_t', None)
    if st is None:
        return self is threading.main_thread()
    return not st.done


def _sleep(s):
    if CURRENT is None:
        return
    CURRENT.sleep(s)


class _Notifier:
    """Stands in for the pipe-backed queue a pool uses to wake its worker handler."""

    def __init__(self):
        self.items = []
        self._reader = self._writer = None

    def put(self, x):
        self.items.append(x)

    def get(self):
        return self.items.pop(0)

    def empty(self):
        return not self.items

    def close(self):
        pass


def virtual_now():
    return CURRENT.now if CURRENT is not None else 1_700_000_000 * 10 ** 9


def install():
    """Patches the standard library's seams. Called once, after third-party imports, before the code under test."""
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading.Thread.start = _start
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    queue.SimpleQueue = queue._PySimpleQueue
    _time.sleep = _sleep
    _time.monotonic = lambda: virtual_now() / 1e9
    _time.perf_counter = lambda: virtual_now() / 1e9
    _time.time = lambda: virtual_now() / 1e9
    threading._time = _time.monotonic
    queue.time = _time.monotonic
    import multiprocessing.pool as mpp
    import multiprocessing.util as mpu
    import concurrent.futures.thread as cft
    import concurrent.futures._base as cfb
    cft._global_shutdown_lock = SimLock()
    mpp.threading = threading

    # the pool's worker handler waits on a pipe: same meaning, under the simulated scheduler
    def wait_for_updates(sentinels, change_notifier, timeout=None):
        sim = CURRENT
        if sim is None:
            raise RuntimeError('a pool is used outside the simulation')
        sim.block(lambda: not change_notifier.empty(), timeout=timeout, what='pool-wait')
        while not change_notifier.empty():
            change_notifier.get()
    mpp.Pool._wait_for_updates = staticmethod(wait_for_updates)
    mpp.ThreadPool._wait_for_updates = staticmethod(wait_for_updates)
    import multiprocessing.context as mpc
    mpc.BaseContext.SimpleQueue = lambda self: _Notifier()
    try:
        import tqdm.std as ts
        ts.tqdm.monitor_interval = 0
        ts.TqdmDefaultWriteLock.create_th_lock()
    except Exception:
        pass
