"""
Case runner: one simulated run per forked child, so every run starts from the same process state.
"""
import os
import sys
import json
import gc
import random
import select
import signal
import shutil
import hashlib
import collections
import traceback
import time as _time

REAL_TIME = _time.monotonic          # captured before the simulator patches the module (only used by the runner)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'surfalize') + os.sep
WALL_LIMIT = float(os.environ.get('VERIF_WALL_LIMIT', '90'))


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


class Ctx:
    """Collects what one simulated run did and found. Everything in it is a function of the case alone."""

    def __init__(self, case, fd):
        self.case = case
        self.fd = fd
        self.violations = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.events = hashlib.blake2b(digest_size=8)
        self.nevents = 0
        self.nontrivial = False
        self.key = None
        self.sim = None
        self.tmp = None
        self.sample = None
        self.log = [] if os.environ.get('VERIF_LOG') else None

    # history log: feeds the determinism digest
    def event(self, *what):
        r = repr(what)
        self.events.update(r.encode())
        self.nevents += 1
        if self.log is not None:
            self.log.append(r)

    def violate(self, kind, detail=''):
        detail = str(detail)
        if self.tmp:
            detail = detail.replace(self.tmp, '<tmp>')
        self.violations.append({'kind': kind, 'detail': detail[:1500]})
        self.event('VIOLATION', kind)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, kind, n=1):
        self.probes[kind] += n

    def fatal(self, kind, detail=''):
        """Called by the simulator (deadlock, no progress): the run is over."""
        self.violate(kind, detail)
        self.finish()

    def result(self):
        r = {'violations': self.violations, 'faults': dict(self.faults), 'probes': dict(self.probes),
             'nontrivial': bool(self.nontrivial), 'key': self.key, 'events': self.events.hexdigest(),
             'nevents': self.nevents, 'sample': self.sample}
        if self.sim is not None:
            s = self.sim
            r.update(points=s.points, switches=s.nswitch, sim_ns=s.now - s.start, sched=s.schedule_hash(),
                     trace=s.records, pairs=len(s.pairs))
        if self.log is not None:
            r['log'] = self.log
        return r

    def finish(self):
        sys.settrace(None)
        data = json.dumps(self.result(), default=str).encode()
        try:
            if self.tmp and os.path.isdir(self.tmp):
                shutil.rmtree(self.tmp, ignore_errors=True)
        finally:
            while data:
                n = os.write(self.fd, data)
                data = data[n:]
            os._exit(0)


_frozen = False


class HarnessError(Exception):
    pass


def _child(scenario, case, fd):
    ctx = Ctx(case, fd)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        gc.collect()
        gc.disable()
        import numpy as np
        np.random.seed(12345)
        random.seed(12345)
        import warnings
        warnings.simplefilter('ignore')
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_STDERR'):
            os.dup2(devnull, 2)
        ctx.tmp = os.path.join(scratch_root(), f'verif-sim-{os.getpid()}')
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        os.makedirs(ctx.tmp)
        scenario.run(case, ctx)
        ctx.finish()
    except BaseException:
        sys.settrace(None)
        err = traceback.format_exc()
        if SRC in err:
            # an exception out of the code under test where the scenario expects none
            try:
                ctx.violate('unexpected-exception', err[-1400:])
                ctx.finish()
            except Exception:
                pass
        try:
            shutil.rmtree(ctx.tmp, ignore_errors=True)
        except Exception:
            pass
        os.write(fd, json.dumps({'harness_error': err[-6000:]}).encode())
        os._exit(3)


def die_with_parent():
    """A run that never ends must not survive a worker that is stopped."""
    import ctypes
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except (OSError, AttributeError):
        pass


def run_case(scenario, case, wall=None):
    """Runs one case in a forked child. Returns its result dict; {'wall_timeout': True} if it had to be killed."""
    wall = wall or WALL_LIMIT
    if hasattr(scenario, 'prepare'):
        scenario.prepare(case)
    global _frozen
    if not _frozen:
        _frozen = True
        # what exists now is left alone by the collector, so that the children do not copy all of it
        gc.collect()
        gc.freeze()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        die_with_parent()
        _child(scenario, case, w)
        os._exit(9)
    os.close(w)
    chunks = []
    end = REAL_TIME() + wall
    timed_out = False
    while True:
        left = end - REAL_TIME()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    tmp = os.path.join(scratch_root(), f'verif-sim-{pid}')
    if os.path.isdir(tmp):
        shutil.rmtree(tmp, ignore_errors=True)
    if timed_out:
        return {'wall_timeout': True, 'violations': []}
    try:
        res = json.loads(b''.join(chunks))
    except ValueError:
        return {'crash': status, 'violations': [{'kind': 'process-died', 'detail': f'wait status {status}'}]}
    if 'harness_error' in res:
        raise HarnessError(res['harness_error'])
    return res


def case_rng(seed, prop, index):
    return random.Random(f'{seed}/{prop}/{index}')


# ------------------------------------------------------------------------------------------------------------ minimiser
def ddmin_list(items, test, budget):
    """Classic delta debugging on a list. test(list) -> bool (still fails)."""
    n = 2
    items = list(items)
    while len(items) >= 1 and budget():
        if len(items) == 1:
            if test([]):
                return []
            return items
        size = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and budget():
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                some = True
            else:
                i += size
        if not some:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(scenario, case, kind, seconds=60):
    """Smallest case (schedule, faults, workload) that still shows a violation of the same kind."""
    t_end = REAL_TIME() + seconds
    count = [0]

    def budget():
        return REAL_TIME() < t_end

    def fails(c):
        count[0] += 1
        try:
            res = run_case(scenario, c, wall=30)
        except HarnessError:
            return None
        for v in res['violations']:
            if v['kind'] == kind:
                return res
        return None

    def scheds(c):
        return 'sched' in c

    best = case
    res = fails(best)
    if res is None:
        return case, None, count[0]
    # 1. workload / faults (with the seeded schedule kept, then with the recorded schedule)
    improved = True
    while improved and budget():
        improved = False
        for cand in scenario.shrink(best):
            if not budget():
                break
            r = fails(cand)
            if r is None and scheds(cand) and cand['sched']['mode'] not in ('trace', 'serial'):
                c2 = dict(cand)
                c2['sched'] = {'mode': 'trace', 'trace': res.get('trace', []), 'tick': cand['sched'].get('tick', 1000)}
                r = fails(c2)
                if r is not None:
                    cand = c2
            if r is not None:
                best, res = cand, r
                improved = True
                break
    # 2. schedule: explicit preemption list, then drop preemptions
    if scheds(best):
        tick = best['sched'].get('tick', 1000)
        c2 = dict(best)
        c2['sched'] = {'mode': 'trace', 'trace': res.get('trace', []), 'tick': tick}
        r = fails(c2)
        if r is not None:
            best, res = c2, r

            def test(tr):
                c3 = dict(best)
                c3['sched'] = {'mode': 'trace', 'trace': tr, 'tick': tick}
                return fails(c3) is not None
            small = ddmin_list(best['sched']['trace'], test, budget)
            c3 = dict(best)
            c3['sched'] = {'mode': 'trace', 'trace': small, 'tick': tick}
            r = fails(c3)
            if r is not None:
                best, res = c3, r
            # workload once more under the small schedule
            improved = True
            while improved and budget():
                improved = False
                for cand in scenario.shrink(best):
                    if not budget():
                        break
                    r = fails(cand)
                    if r is not None:
                        best, res = cand, r
                        improved = True
                        break
    return best, res, count[0]
