"""
Process settings, exported results, recorded dates, example files over the network, the command line converter.
"""
import collections
import datetime as real_dt
import gc
import io
import json
import os
import random
import re
import socket
import struct
import sys
import threading
import time
import types
import warnings

import numpy as np

import simsched
import gen
import formats
from disk import Disk, Plan, FRaw, FBytes, faults, file_size_limit
from util import new_sim, isolated, arr_digest, exc_text, shrink_list, with_, short_hash, num_equal
from s_file import (FileBase, RFile, gen_rfile, gen_channel, open_channel, gen_rfault, gen_corruption, corrupt, gen_save_surface,
                    make_save_surface, gen_writer, readback_problem)
from s_batch import BatchBase, World, build_batch, oracle_row, set_cpus, rows_of, compare_rows, gen_file, is_param, Inject

from surfalize import Surface, Batch
from surfalize.file import supported_formats_read


# ==================================================================================================================== B06
def settings():
    """The process wide settings, comparable."""
    out = collections.OrderedDict()
    out['warning filters'] = [tuple(str(x) if not hasattr(x, 'pattern') else x.pattern for x in f) for f in warnings.filters]
    out['warnings.showwarning'] = id(warnings.showwarning)
    out['numpy error handling'] = sorted(np.geterr().items())
    out['numpy error callback'] = repr(np.geterrcall())
    out['numpy print options'] = repr(sorted(np.get_printoptions().items(), key=str))
    s = np.random.get_state()
    out['numpy random state'] = (s[0], arr_digest(s[1]), s[2], s[3])
    out['random state'] = short_hash(random.getstate())
    out['working directory'] = os.getcwd()
    out['environment'] = short_hash(sorted(os.environ.items()))
    out['recursion limit'] = sys.getrecursionlimit()
    out['switch interval'] = sys.getswitchinterval()
    out['standard streams'] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    import locale
    out['locale'] = locale.setlocale(locale.LC_ALL)
    import decimal
    out['decimal precision'] = decimal.getcontext().prec
    u = os.umask(0)
    os.umask(u)
    out['umask'] = u
    import matplotlib
    out['matplotlib settings'] = short_hash(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items()))
    import pandas as pd
    out['pandas settings'] = repr([pd.get_option(o) for o in ('display.max_rows', 'display.precision', 'mode.use_inf_as_na')
                                   if o in dir(pd.options)])
    return out


def open_files(root):
    """Open descriptors of files below root."""
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink(f'/proc/self/fd/{fd}')
        except OSError:
            continue
        if p.startswith(root):
            out.append(os.path.basename(p))
    return sorted(out)


class B06(FileBase):
    RULE = 'A run counts as non-trivial when at least two actions ran, one of which probed readers, failed or ran beside another.'
    MUST_PROBE = ['load ok', 'load failed', 'probed', 'calculation', 'batch', 'batch failed', 'concurrent', 'save', 'save failed']
    ASSUMPTIONS = FileBase.ASSUMPTIONS + ['the settings compared are those listed in settings() of the scenario']

    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 2, 3, 3])
        files = [gen_rfile(rng, hi=14) for _ in range(rng.randint(1, 3))]
        for f in files:
            f['spec']['ny'], f['spec']['nx'] = min(16, f['spec']['ny']), min(16, f['spec']['nx'])
        threads = []
        for t in range(nt):
            acts = []
            for _ in range(rng.randint(1, 3 if nt > 1 else 6)):
                i = rng.randrange(len(files))
                r = rng.random()
                if r < 0.55:
                    a = {'do': 'load', 'f': i, 'layers': rng.random() < 0.3}
                    q = rng.random()
                    if q < 0.35:
                        a['chan'] = gen_channel(rng, files[i]['fmt'])
                    elif q < 0.7:
                        # recognised only by trying
                        a['chan'] = {'kind': rng.choice(['path', 'path', 'bytesio', 'raw']), 'name': 'wrong',
                                     'wrong': rng.choice(['.zzz', '.plu', '.vk4', '.nms', '.xyz']), 'format': 'wrong'}
                        if rng.random() < 0.5:
                            a['chan'].pop('format')
                    else:
                        a['chan'] = {'kind': rng.choice(['path', 'bytesio', 'raw']), 'format': 'own'}
                    if rng.random() < 0.4:
                        a['ops'] = gen_corruption(rng)
                    if rng.random() < 0.25:
                        a['fault'] = gen_rfault(rng, alloc=False)
                elif r < 0.7:
                    n, pa, pk = gen.gen_param(rng, names=rng.choice([gen.CHEAP_PARAMS, gen.CHEAP_PARAMS, gen.FAST_PARAMS, gen.PARAMS]))
                    a = {'do': 'param', 'f': i, 'p': [n, pa, pk], 'op': gen.gen_op(rng, names=gen.OPS)}
                elif r < 0.85:
                    a = {'do': 'save', 'f': i, 'w': gen_writer(rng), 'kind': rng.choice(['path', 'bytesio', 'raw', 'nodir'])}
                    if rng.random() < 0.4:
                        a['fault'] = {'kind': 'eio-write', 'call': rng.choice([0, 1, 3]), 'times': 1 << 30, 'interrupt': rng.random() < 0.2}
                else:
                    a = {'do': 'batch', 'n': rng.randint(1, 3), 'bad': rng.random() < 0.4, 'parallel': rng.random() < 0.8,
                         'p': rng.choice(['Sa', 'Sq', 'Sdr', 'period', 'Sk']), 'op': rng.choice(['level', 'center', 'fill_nonmeasured'])}
                acts.append(a)
            threads.append(acts)
        if nt > 1 and rng.random() < 0.4:
            # everybody does the same at the same time
            same = threads[0][:rng.randint(1, 2)]
            threads = [[dict(a, f=rng.randrange(len(files))) if a['do'] in ('param', 'save') else dict(a) for a in same]
                       for _ in range(nt)]
        return {'files': files, 'threads': threads, 'filters': rng.choice(['default', 'error', 'custom', 'none']),
                'err': rng.choice(['warn', 'raise-over', 'ignore']), 'cpus': rng.choice([1, 2, 4]),
                'sched': simsched.draw_sched(rng, 2000) if nt > 1 else {'mode': 'serial', 'tick': 1000}}

    def shrink(self, case):
        for i, t in enumerate(case['threads']):
            for x in shrink_list(t):
                yield with_(case, threads=case['threads'][:i] + [x] + case['threads'][i + 1:])
            for j, a in enumerate(t):
                for k in ('ops', 'fault'):
                    if k in a:
                        b = {q: v for q, v in a.items() if q != k}
                        yield with_(case, threads=case['threads'][:i] + [t[:j] + [b] + t[j + 1:]] + case['threads'][i + 1:])
        if case['filters'] != 'default':
            yield with_(case, filters='default')
        for i, f in enumerate(case['files']):
            s = f['spec']
            for alt in ({'ny': 6, 'nx': 6}, {'nan': 0.0}):
                if any(s.get(k) != v for k, v in alt.items()):
                    yield with_(case, files=case['files'][:i] + [dict(f, spec=dict(s, **alt))] + case['files'][i + 1:])

    def run(self, case, ctx):
        root = os.path.join(ctx.tmp, 'd')
        os.makedirs(root)
        os.chdir(ctx.tmp)
        set_cpus(case['cpus'])
        rfs = [RFile(f) for f in case['files']]
        warnings.resetwarnings()
        if case['filters'] == 'default':
            warnings.simplefilter('default')
        elif case['filters'] == 'error':
            warnings.simplefilter('error')
        elif case['filters'] == 'custom':
            warnings.filterwarnings('ignore', message='abc.*')
            warnings.filterwarnings('always', category=DeprecationWarning, module='xyz')
            warnings.simplefilter('once')
        else:
            warnings.simplefilter('ignore')
        if case['err'] == 'raise-over':
            np.seterr(over='raise', divide='ignore')
        elif case['err'] == 'ignore':
            np.seterr(all='ignore')
        np.random.seed(case['files'][0]['seed'])
        random.seed(case['files'][0]['seed'])
        # one of everything before the comparison: what is initialised on first use is not a change
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            settings()
        before = settings()
        sim = new_sim(case, ctx, max_points=3000000)
        held = []
        done = collections.Counter()

        def body(t):
            for j, a in enumerate(case['threads'][t]):
                err = None
                try:
                    getattr(self, 'do_' + a['do'])(ctx, sim, disk, root, rfs, a, f'{t}_{j}', case)
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                    held.append(e)
                    with sim.untraced():
                        ctx.event(t, j, type(e).__name__)
                if a['do'] in ('load', 'save', 'batch'):
                    ctx.probe(a['do'] + (' failed' if err is not None else ' ok' if a['do'] == 'load' else ''))
                else:
                    ctx.probe('calculation')
                done['failed'] += err is not None
                done['all'] += 1
                if len(case['threads']) == 1:
                    with sim.untraced():
                        self.compare(ctx, before, f'after {self.text(a)}' + (f' ({exc_text(err)})' if err else ''))
                        left = [p for p in open_files(root) if not p.startswith('own_')]
                        if left:
                            ctx.violate('file-left-open', f'{self.text(a)} ({type(err).__name__}) left {left} open')

        with Disk(root) as disk:
            with sim:
                ths = [threading.Thread(target=body, args=(t,)) for t in range(1, len(case['threads']))]
                for th in ths:
                    th.start()
                body(0)
                for th in ths:
                    th.join()
                sim.drain()
                for th in ths:
                    if th._sim_t.exc is not None:
                        raise th._sim_t.exc
            self.compare(ctx, before, f'after {[[self.text(a) for a in t] for t in case["threads"]]}')
            left = [p for p in open_files(root) if not p.startswith('own_')]
            if left:
                ctx.violate('file-left-open', f'{left} still open at the end')
        if len(case['threads']) > 1:
            ctx.probe('concurrent')
        ctx.nontrivial = done['all'] > 1 and (done['failed'] > 0 or len(case['threads']) > 1 or bool(ctx.probes.get('probed')))
        ctx.key = [short_hash(case['files']), short_hash(case['threads']), case['filters'], case['err']]
        ctx.sample = {'actions': done['all']}

    @staticmethod
    def text(a):
        return {k: (v if k != 'ops' else 'damaged') for k, v in a.items()}

    @staticmethod
    def compare(ctx, before, where):
        now = settings()
        for k in before:
            if before[k] != now[k]:
                ctx.violate('setting-changed', f'{k}: {str(now[k])[:300]} instead of {str(before[k])[:300]} {where}')
                before[k] = now[k]

    def do_load(self, ctx, sim, disk, root, rfs, a, tag, case):
        with sim.untraced():
            rf = rfs[a['f']]
            b = rf.bytes
            if a.get('ops'):
                b = corrupt(b, a['ops'])

            class R:
                fmt, suffix, bytes = rf.fmt, rf.suffix, b
            f = a.get('fault')
            plan = Plan(ctx, f)
            if f and f.get('kind') == 'eio-read':
                plan.spec = dict(f, at=int(f['x'] * len(b)))
            ch = a['chan']
            plan.active = False
            arg, fmt, stream = open_channel(ctx, R, ch, plan, disk, tag)
            if stream is not None and hasattr(stream, 'name'):
                # the caller's own descriptor
                os.rename(stream.name, os.path.join(root, 'own_' + tag))
            plan.active = True
            if stream is None and f:
                disk.rules[os.path.realpath(arg)] = plan
            if ch.get('format') == 'wrong' or (ch.get('name') == 'wrong'):
                ctx.probe('probed')
        try:
            s = Surface.load(arg, format=fmt, read_image_layers=a['layers'])
            if not a.get('ops'):
                s.Sa()
        finally:
            if stream is not None:
                stream.close()

    def do_param(self, ctx, sim, disk, root, rfs, a, tag, case):
        with sim.untraced():
            rf = rfs[a['f']]
            s = Surface(rf.data.copy(), rf.sx, rf.sy)
            _, pa, pk = gen.call_args(a['p'])
            _, oa, ok = gen.call_args(list(a['op']))
        try:
            getattr(s, a['p'][0])(*pa, **pk)
        finally:
            s2 = getattr(s, a['op'][0])(*oa, **ok)
            s2.Sa()

    def do_save(self, ctx, sim, disk, root, rfs, a, tag, case):
        rf = rfs[a['f']]
        s = Surface(rf.data.copy(), rf.sx, rf.sy)
        plan = Plan(ctx, a.get('fault'))
        w = a['w']
        path = os.path.join(root, 's' + tag + w[0])
        if a['kind'] == 'nodir':
            s.save(os.path.join(root, 'missing', 'x' + w[0]), **w[1])
        elif a['kind'] == 'path':
            if a.get('fault'):
                disk.rules[os.path.realpath(path)] = plan
            s.save(path, **w[1])
        elif a['kind'] == 'bytesio':
            s.save(FBytes(b'', plan), format=w[0], **w[1])
        else:
            with sim.untraced():
                p = os.path.join(root, 'own_s' + tag)
                with open(p, 'wb'):
                    pass
                raw = FRaw(p, 'r+', plan)
            try:
                s.save(raw, format=w[0], **w[1])
            finally:
                raw.close()

    def do_batch(self, ctx, sim, disk, root, rfs, a, tag, case):
        with sim.untraced():
            paths = []
            for i in range(a['n']):
                rf = rfs[i % len(rfs)]
                p = os.path.join(root, f'b{tag}_{i}{rf.suffix}')
                with open(p, 'wb') as fh:
                    fh.write(rf.bytes if not (a['bad'] and i == a['n'] - 1) else b'nothing here' * 9)
                paths.append(p)
        b = Batch(paths)
        getattr(b, a['op'])()
        getattr(b, a['p'])()
        b.execute(multiprocessing=a['parallel'])


# ==================================================================================================================== B07
def gen_xfault(rng):
    n = rng.choice([0, 1, 30, rng.randrange(0, 5200), rng.randrange(0, 5200), rng.randrange(0, 9000)])
    r = rng.random()
    if r < 0.35:
        return {'kind': 'enospc', 'at': n}
    if r < 0.55:
        return {'kind': 'eio-write', 'call': rng.choice([0, 0, 1, 2, 3, 5, 8]), 'times': rng.choice([1, 1, 1 << 30])}
    if r < 0.65:
        return {'kind': 'short-write', 'seed': rng.getrandbits(16)}
    if r < 0.75:
        return {'kind': 'close', 'lost': rng.choice([0, 1, 100])}
    if r < 0.8:
        return {'kind': 'open', 'times': 1, 'errno': rng.choice(['EMFILE', 'EACCES', 'EROFS', 'EIO', 'ENOSPC', 'EPERM'])}
    return {'kind': 'rlimit', 'at': n}


def read_xlsx(path):
    """-> list of row dictionaries, read with openpyxl alone"""
    import openpyxl
    ws = openpyxl.load_workbook(path, read_only=False, data_only=True).active
    rows = list(ws.iter_rows(values_only=True))
    head = rows[0]
    return head, rows[1:]


class B07(BatchBase):
    RULE = 'A run counts as non-trivial when at least two files were exported or writing the output failed.'
    MUST_PROBE = ['written', 'refused', 'healed', 'overwrote', 'parallel run', 'disk full', 'file size limit',
                  'short write', 'missing directory', 'failing file']
    ASSUMPTIONS = BatchBase.ASSUMPTIONS + ['openpyxl reads what a spreadsheet program reads']

    def gen(self, rng, tier):
        case = self.base_case(rng, nfiles=(1, 5), heavy=0.1, nops=(0, 2))
        for f in case['files']:
            f['spec']['ny'], f['spec']['nx'] = min(14, f['spec']['ny']), min(14, f['spec']['nx'])
        case['inject'] = [['param', rng.choice(['Sa', 'Sq', 'Sz']), 2]] if rng.random() < 0.3 else []
        case['ignore'] = True
        case['execs'] = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            case['execs'].append({'to': rng.choice(['str', 'str', 'Path', 'nodir']), 'name': rng.choice(['o', 'o', 'ü n']),
                                  'old': rng.choice([0, 0, 40000]), 'fault': gen_xfault(rng) if rng.random() < 0.75 else None})
        if rng.random() < 0.15:
            case['files'][-1]['bad'] = 'garbage'
            case['files'][-1]['alias'] = None
        return case

    def shrink(self, case):
        for e in shrink_list(case['execs'], 1):
            yield with_(case, execs=e)
        yield from super().shrink(case)

    def run(self, case, ctx):
        from pathlib import Path
        set_cpus(case['cpus'])
        root = os.path.join(ctx.tmp, 'out')
        os.makedirs(root)
        world = World(case, ctx)
        bad = any(f.get('bad') for f in case['files'])
        with Inject(case['inject']):
            if bad:
                steps, want = [s for s in case['steps'] if is_param(s)][:1] or [['param', 'Sz', [], {}, None]], None
                if steps[0][0] == 'cparam' and steps[0][1].startswith('calc'):
                    steps = [['param', 'Sz', [], {}, None]]
            else:
                steps, want = self.usable_steps(world, case)
                if steps is None:
                    ctx.probe('no usable pipeline')
                    return
                want = [w[1] for w in want]
            with Disk(root) as disk:
                with new_sim(case, ctx) as sim:
                    b = build_batch(world, steps, via=case['via'])
                    for n, e in enumerate(case['execs']):
                        for heal in (False, True):
                            self.export(case, ctx, sim, disk, root, b, want, n, e, None if heal else e['fault'], bad, heal)
                            if not e['fault'] and e['to'] != 'nodir':
                                break
        ctx.probe('parallel run' if case['parallel'] else 'sequential run')
        ctx.nontrivial = len(case['files']) > 1 or bool(ctx.faults)
        self.finish_key(ctx, case, short_hash(case['execs']))

    def export(self, case, ctx, sim, disk, root, b, want, n, e, fault, bad, heal):
        from pathlib import Path
        path = os.path.join(root, e['name'] + '.xlsx')
        target = path
        if e['to'] == 'nodir' and not heal:
            target = os.path.join(root, 'missing', 'o.xlsx')
            ctx.probe('missing directory')
        elif e['to'] == 'Path':
            target = Path(path)
        if e['old']:
            ctx.probe('overwrote')
            with sim.untraced():
                with open(path, 'wb') as f:
                    f.write(b'\x5a' * e['old'])
        rl = fault and fault['kind'] == 'rlimit'
        plan = Plan(ctx, None if rl else fault)
        res = err = None

        def go():
            return b.execute(multiprocessing=case['parallel'], ignore_errors=case['ignore'],
                             preserve_chaining_order=case['preserve'], saveto=target)
        try:
            with faults(disk, plan):
                if rl:
                    with file_size_limit(fault['at']):
                        res = go()
                else:
                    res = go()
        except (Exception, KeyboardInterrupt) as ex:
            err = ex
        import errno
        fired = bool(plan.fired) or (rl and isinstance(err, OSError) and err.errno == errno.EFBIG)
        if rl and fired:
            ctx.fault('file size limit')
        where = f'execution {n} saving to {target!r} with {fault}'
        with sim.untraced():
            ctx.event(n, heal, type(err).__name__)
            if bad:
                ctx.probe('failing file')
                if err is None:
                    ctx.violate('returned-despite-failure', f'{where}: returned although a file cannot be loaded')
                return
            if err is not None:
                ctx.probe('refused')
                if not fired and not (e['to'] == 'nodir' and not heal):
                    ctx.violate('export-refused', f'{where}: raised {exc_text(err)} without a fault')
                return
            if e['to'] == 'nodir' and not heal:
                if not os.path.exists(target):
                    ctx.violate('acknowledged-but-lost', f'{where}: returned without writing anything')
                return
            ctx.probe('written')
            if heal:
                ctx.probe('healed')
            df = res.get_dataframe()
            try:
                head, rows = read_xlsx(path)
            except Exception as ex:
                ctx.violate('acknowledged-but-lost', f'{where}: the output cannot be read: {exc_text(ex)}')
                return
            cols = [str(c) for c in df.columns]
            idx = {}
            for c in cols:
                if c not in head:
                    ctx.violate('acknowledged-but-lost', f'{where}: column {c!r} is missing in the output')
                    return
                idx[c] = head.index(c)
            if len(rows) != len(df):
                ctx.violate('acknowledged-but-lost', f'{where}: {len(rows)} rows in the output instead of {len(df)}')
                return
            got = []
            for r in rows:
                g = {}
                for c in cols:
                    v = r[idx[c]]
                    g[c] = float('nan') if v is None else v
                got.append(g)
            compare_rows(ctx, got, want, f'{where}: output file')
            for i, g in enumerate(got):
                for c in cols:
                    if not num_equal(g[c], df.iloc[i][c]):
                        ctx.violate('output-differs', f'{where}: row {i} {c}: {g[c]!r} in the file, {df.iloc[i][c]!r} in the result')
                        return


# ==================================================================================================================== T01
class Clock:
    """Wall clock of the simulation: every reading advances by the next step of a script (steps may be negative).

    It shows the time of a place `zone` hours east of Greenwich."""

    def __init__(self, start, steps, zone=0):
        self.zone = real_dt.timedelta(hours=zone)
        self.t = real_dt.datetime.fromisoformat(start)
        self.steps = steps
        self.n = 0
        self.readings = collections.defaultdict(list)

    def read(self):
        t = self.t
        self.readings[threading.get_ident()].append(t)
        self.t = t + real_dt.timedelta(seconds=self.steps[self.n % len(self.steps)])
        self.n += 1
        return t


def sim_datetime(clock):
    """Replacements for datetime.datetime and datetime.date that read the simulated clock."""
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_dt.datetime)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_dt.datetime)

    class DateTime(real_dt.datetime, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            t = clock.read()
            return (t - clock.zone).replace(tzinfo=real_dt.timezone.utc).astimezone(tz) if tz is not None else t

        @classmethod
        def today(cls):
            return clock.read()

        @classmethod
        def utcnow(cls):
            return clock.read() - clock.zone

        @classmethod
        def fromtimestamp(cls, t, tz=None):
            u = real_dt.datetime(1970, 1, 1) + real_dt.timedelta(seconds=t)
            return u + clock.zone if tz is None else u.replace(tzinfo=real_dt.timezone.utc).astimezone(tz)

    class DateMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_dt.date)

    class Date(real_dt.date, metaclass=DateMeta):
        @classmethod
        def today(cls):
            return clock.read().date()

    return DateTime, Date


def install_clock(clock):
    import surfalize.file
    DateTime, Date = sim_datetime(clock)
    fake = types.ModuleType('datetime')
    fake.__dict__.update({k: v for k, v in vars(real_dt).items() if not k.startswith('__')})
    fake.datetime, fake.date = DateTime, Date
    epoch = real_dt.datetime(1970, 1, 1)

    def secs():
        return (clock.read() - clock.zone - epoch).total_seconds()
    east = clock.zone.total_seconds()
    real = {k: getattr(time, k) for k in ('localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}
    time.time = secs
    time.time_ns = lambda: int(secs() * 1e9)
    time.localtime = lambda s=None: real['gmtime']((secs() if s is None else s) + east)
    time.gmtime = lambda s=None: real['gmtime'](secs() if s is None else s)
    time.strftime = lambda f, t=None: real['strftime'](f, time.localtime() if t is None else t)
    time.ctime = lambda s=None: real['asctime'](time.localtime(s))
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] != 'surfalize' or m is None:
            continue
        for k, v in list(vars(m).items()):
            if v is real_dt.datetime:
                setattr(m, k, DateTime)
            elif v is real_dt.date:
                setattr(m, k, Date)
            elif v is real_dt:
                setattr(m, k, fake)
            else:
                for n2, f in real.items():
                    if v is f:
                        setattr(m, k, getattr(time, n2))
                if v is T01.TIME:
                    setattr(m, k, time.time)


def sur_date(b, at=0):
    v = struct.unpack('<7h', b[at + 306:at + 320])
    return real_dt.datetime(v[5], v[4], v[3], v[2], v[1], v[0]), v[6]


def sdf_dates(b):
    """-> (create, modified) as texts"""
    if b[:1] == b'b':
        return b[18:30].decode(), b[30:42].decode()
    out = {}
    for line in b[:600].decode('latin1').splitlines():
        if '=' in line:
            k, v = line.split('=', 1)
            out[k.strip()] = v.strip()
    return out['CreateDate'], out['ModDate']


STARTS = ['2023-12-31T23:59:59.999999', '2024-02-28T23:59:59.500000', '2024-02-29T23:59:59.999000', '2021-06-30T23:59:58',
          '2020-01-01T00:00:00', '2022-03-27T01:59:59.9', '2025-07-15T12:59:59.999999', '2025-07-15T12:34:59.999999',
          '2025-11-09T09:59:59', '1999-12-31T23:59:59.9', '2038-01-19T03:14:07.9']
JUMPS = [0.000001, 0.001, 0.5, 1, 1, 59, 60, 3599, 3600, 86399, 86400, 86400 * 31, 86400 * 366, -1, -60, -3600, -86400,
         -86400 * 365]


class T01(FileBase):
    TIME = time.time
    RULE = 'A run counts as non-trivial when the clock moved between two readings or two threads saved.'
    MUST_PROBE = ['sur', 'sdf', 'own timestamp', 'clock went back', 'concurrent', 'year passed', 'other time zone']
    ASSUMPTIONS = FileBase.ASSUMPTIONS + ['the clock is read through datetime or time']

    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 3])
        threads = []
        for t in range(nt):
            acts = []
            for _ in range(rng.randint(1, 4)):
                o = gen_save_surface(rng)
                o['spec']['ny'], o['spec']['nx'] = min(5, o['spec']['ny']), min(5, o['spec']['nx'])
                o['spec']['nan'] = 0.0
                o['layers'] = []
                w = gen_writer(rng)
                if w[0] == '.sflz' and rng.random() < 0.7:
                    w = rng.choice([['.sur', {}], ['.sdf', {}], ['.sdf', {'binary': False}], ['.sur', {'compressed': True}]])
                acts.append({'o': o, 'w': w, 'path': rng.random() < 0.5,
                             'fail': rng.random() < 0.15, 'stamp': rng.choice([None, None, '2001-02-03T04:05:59.999999',
                                                                               '1987-12-31T23:59:00'])})
            threads.append(acts)
        return {'threads': threads, 'start': rng.choice(STARTS), 'steps': [rng.choice(JUMPS) for _ in range(rng.choice([1, 2, 3, 5]))],
                'zone': rng.choice([0, 0, 1, 5.5, 13, -3.5, -11]),
                'sched': simsched.draw_sched(rng, 600) if nt > 1 else {'mode': 'serial', 'tick': 1000}}

    def shrink(self, case):
        for i, t in enumerate(case['threads']):
            for x in shrink_list(t):
                yield with_(case, threads=case['threads'][:i] + [x] + case['threads'][i + 1:])
        if case.get('zone'):
            yield with_(case, zone=0)
        for s in shrink_list(case['steps'], 1):
            yield with_(case, steps=s)
        for i, t in enumerate(case['threads']):
            for j, a in enumerate(t):
                for alt in ({'fail': False}, {'stamp': None}, {'path': False}):
                    if any(a[k] != v for k, v in alt.items()):
                        yield with_(case, threads=case['threads'][:i] + [t[:j] + [dict(a, **alt)] + t[j + 1:]] +
                                    case['threads'][i + 1:])

    def run(self, case, ctx):
        clock = Clock(case['start'], case['steps'], case.get('zone', 0))
        install_clock(clock)
        sim = new_sim(case, ctx)
        objs = {}
        for t, acts in enumerate(case['threads']):
            for j, a in enumerate(acts):
                s = make_save_surface(dict(a['o'], stamp=False))
                if a['stamp']:
                    s.metadata['timestamp'] = real_dt.datetime.fromisoformat(a['stamp'])
                objs[t, j] = s

        def body(t):
            me = threading.get_ident()
            for j, a in enumerate(case['threads'][t]):
                s, w = objs[t, j], a['w']
                if a['fail']:
                    # a save that fails after the clock may have been read leaves nothing for the next one
                    try:
                        s.save(FBytes(b'', Plan(ctx, {'kind': 'eio-write', 'call': 1, 'times': 1 << 30})), format=w[0], **w[1])
                    except OSError:
                        pass
                first = len(clock.readings[me])
                if a['path']:
                    p = os.path.join(ctx.tmp, f's{t}_{j}{w[0]}')
                    s.save(p, **w[1])
                    with sim.untraced():
                        with open(p, 'rb') as f:
                            b = f.read()
                else:
                    f = io.BytesIO()
                    s.save(f, format=w[0], **w[1])
                    b = f.getvalue()
                with sim.untraced():
                    self.check(ctx, clock.readings[me][first:], a, w, b, f'thread {t} save {j} {w}')

        with sim:
            ths = [threading.Thread(target=body, args=(t,)) for t in range(1, len(case['threads']))]
            for th in ths:
                th.start()
            body(0)
            for th in ths:
                th.join()
            for th in ths:
                if th._sim_t.exc is not None:
                    raise th._sim_t.exc
        if len(case['threads']) > 1:
            ctx.probe('concurrent')
        if case.get('zone'):
            ctx.probe('other time zone')
        if any(s < 0 for s in case['steps']):
            ctx.fault('clock jumps back', sum(case['steps'][i % len(case['steps'])] < 0 for i in range(clock.n)))
            ctx.probe('clock went back')
        ctx.fault('clock jumps forward', sum(case['steps'][i % len(case['steps'])] > 50 for i in range(clock.n)))
        rd = [r for v in clock.readings.values() for r in v]
        if len({r.year for r in rd}) > 1:
            ctx.probe('year passed')
        ctx.nontrivial = len(rd) > 1
        ctx.key = [case['start'], short_hash(case['steps']), short_hash(case['threads'])]
        ctx.sample = {'readings': len(rd)}

    @staticmethod
    def check(ctx, readings, a, w, b, where):
        shown = [r.isoformat() for r in readings]
        if w[0] == '.sur':
            ctx.probe('sur')
            try:
                d, wd = sur_date(b)
            except Exception as e:
                ctx.violate('no-instant', f'{where}: the recorded date is none ({exc_text(e)}); the clock showed {shown}')
                return
            ok = [r for r in readings if r.replace(microsecond=0) == d]
            if not ok:
                ctx.violate('no-instant', f'{where}: recorded {d.isoformat()}, the clock showed {shown}')
            elif wd not in (ok[0].weekday(), ok[0].isoweekday(), ok[0].isoweekday() % 7):
                ctx.violate('no-instant', f'{where}: weekday {wd} recorded for {d.isoformat()}')
            ctx.event(str(d))
        elif w[0] == '.sdf':
            ctx.probe('sdf')
            c, m = sdf_dates(b)
            ok = [r.strftime('%d%m%Y%H%M') for r in readings]
            if m not in ok:
                ctx.violate('no-instant', f'{where}: recorded {m} as modified, the clock showed {shown}')
            if a['stamp']:
                ctx.probe('own timestamp')
                if c != real_dt.datetime.fromisoformat(a['stamp']).strftime('%d%m%Y%H%M'):
                    ctx.violate('timestamp-lost', f'{where}: recorded {c} as created instead of {a["stamp"]}')
            elif c != m:
                ctx.violate('no-instant', f'{where}: created {c} but modified {m}: two instants')
            ctx.event(c, m)


# ==================================================================================================================== N01
INF = float('inf')


class Net:
    """The network between the process and the servers, with a script of faults; time is simulated."""

    def __init__(self, ctx, sim, server):
        self.ctx, self.sim, self.server = ctx, sim, server
        self.script = []
        self.spent = 0.0        # simulated seconds of delay that were served
        self.requests = []

    def wait(self, seconds, timeout, what):
        """A peer that takes its time. Raises the socket's time-out or ends the run when there is none."""
        if timeout is not None and seconds >= timeout:
            self.sim.now += int(timeout * 1e9)
            self.ctx.fault('time-out: ' + what)
            raise socket.timeout('timed out')
        if seconds == INF:
            self.ctx.fatal('no-progress', f'waiting forever for {what}: no time limit on the connection')
        self.sim.now += int(seconds * 1e9)
        if seconds:
            self.ctx.fault('delay: ' + what)
            self.spent += seconds

    def connect(self, address, timeout, *a, **k):
        f = self.script.pop(0) if self.script else {}
        if not isinstance(timeout, (int, float)):
            timeout = None
        c = f.get('connect')
        if c == 'dns':
            self.ctx.fault('name resolution fails')
            raise socket.gaierror(-2, 'Name or service not known')
        if c == 'refused':
            self.ctx.fault('connection refused')
            raise ConnectionRefusedError(111, 'Connection refused')
        if c == 'unreachable':
            self.ctx.fault('network unreachable')
            raise OSError(101, 'Network is unreachable')
        self.wait(f.get('connect_delay', 0), timeout, 'connection')
        return FakeSock(self, f, timeout, address)


class FakeSock:
    def __init__(self, net, fault, timeout, address):
        self.net, self.f, self.timeout, self.address = net, fault, timeout, address
        self.sent = b''
        self.out = None
        self.pos = 0
        self.recvs = 0
        self.closed = False
        self.opened = 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def fileno(self):
        return -1

    def getpeername(self):
        return self.address

    def sendall(self, b, *a):
        if self.f.get('send') == 'reset':
            self.net.ctx.fault('connection reset while sending')
            raise ConnectionResetError(104, 'Connection reset by peer')
        self.sent += bytes(b)

    send = sendall

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def makefile(self, mode='r', buffering=None, **k):
        return io.BufferedReader(FakeRecv(self), 8192)

    def response(self):
        if self.out is None:
            line = self.sent.split(b'\r\n', 1)[0].decode()
            self.net.requests.append(line)
            host = re.search(rb'\r\nhost: ([^\r]*)', self.sent, re.I)
            self.out = self.net.server.answer(line.split(' ')[1], host.group(1).decode() if host else '', self.f)
        return self.out

    def recv_into(self, b):
        f, out = self.f, self.response()
        self.recvs += 1
        if self.recvs == 1:
            self.net.wait(f.get('first', 0), self.timeout, 'answer')
        else:
            self.net.wait(f.get('next', 0), self.timeout, 'rest of the answer')
        n = min(len(b), len(out) - self.pos, f.get('chunk', 1 << 20))
        stop = f.get('stop')
        if stop is not None:
            at = int(stop['x'] * len(out))
            n = min(n, at - self.pos)
            if n <= 0:
                if stop['how'] == 'stall':
                    self.net.wait(INF, self.timeout, 'rest of the answer')
                if stop['how'] == 'reset':
                    self.net.ctx.fault('connection reset')
                    raise ConnectionResetError(104, 'Connection reset by peer')
                self.net.ctx.fault('answer truncated')
                return 0
        b[:n] = out[self.pos:self.pos + n]
        self.pos += n
        return n


class FakeRecv(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)


class Server:
    def __init__(self, ctx):
        self.ctx = ctx
        self.files = {}

    def listing(self):
        return [{'name': n, 'path': 'tests/test_files/' + n, 'size': len(b), 'type': 'file',
                 'download_url': 'https://raw.example.org/files/' + self.quote(n)} for n, b in self.files.items()]

    @staticmethod
    def quote(n):
        from urllib.parse import quote
        return quote(n)

    def answer(self, path, host, f):
        import gzip
        import zlib
        from urllib.parse import unquote
        status, body, extra = 200, None, []
        name = unquote(path.rsplit('/', 1)[-1])
        if f.get('redirect') == 'loop':
            self.ctx.fault('redirect loop')
            status, body, extra = 302, b'', [('Location', path)]
            self.loop = True
        elif f.get('status'):
            status = f['status']
            self.ctx.fault('error status')
            body = {'json': b'{"message": "API rate limit exceeded", "documentation_url": "x"}',
                    'html': b'<html><body>oops</body></html>', 'empty': b'', 'list': json.dumps(self.listing()[:1]).encode(),
                    'file': next(iter(self.files.values()), b'')}[f.get('body', 'json')]
        elif f.get('odd'):
            self.ctx.fault('odd answer')
            body = {'html': b'<html>please log in</html>', 'empty': b'', 'object': b'{"message": "moved"}',
                    'null': b'null', 'strings': b'["a", "b"]', 'cut': json.dumps(self.listing()).encode()[:-7] or b'['}[f['odd']]
        elif '/contents/' in path:
            body = json.dumps(self.listing()).encode()
            extra = [('Content-Type', 'application/json; charset=utf-8')]
        elif name in self.files:
            body = self.files[name]
            extra = [('Content-Type', 'application/octet-stream')]
        else:
            status, body = 404, b'404: Not Found'
        enc = f.get('encoding')
        if enc == 'gzip':
            body = gzip.compress(body, mtime=0)
            extra.append(('Content-Encoding', 'gzip'))
        elif enc == 'deflate':
            body = zlib.compress(body)
            extra.append(('Content-Encoding', 'deflate'))
        head = f'HTTP/1.1 {status} X\r\nConnection: close\r\n'
        if f.get('framing') == 'chunked':
            head += 'Transfer-Encoding: chunked\r\n'
            out = b''
            for i in range(0, len(body), 700):
                c = body[i:i + 700]
                out += f'{len(c):x}\r\n'.encode() + c + b'\r\n'
            body = out + b'0\r\n\r\n'
        elif f.get('framing') != 'close':
            head += f'Content-Length: {len(body)}\r\n'
        for k, v in extra:
            head += f'{k}: {v}\r\n'
        return head.encode() + b'\r\n' + body


class N01(FileBase):
    REAL = ['surfalize.examples, surfalize.file', 'requests, urllib3, http.client above the socket']
    STUB = ['name resolution, sockets, TLS and the servers behind them', 'clock', 'thread scheduler']
    RULE = 'A run counts as non-trivial when a network fault was injected or several calls were made.'
    MUST_PROBE = ['list ok', 'list failed', 'load ok', 'load failed', 'recovered', 'server changed', 'answer truncated',
                  'error status', 'connection reset', 'time-out', 'redirect loop', 'filtered list']
    ASSUMPTIONS = ['requests, urllib3 and http.client behave as documented; certificates are not checked in the simulation',
                   'a server that keeps sending something is waited for: only silence is limited']

    def gen_fault(self, rng):
        r = rng.random()
        f = {}
        if r < 0.1:
            f['connect'] = rng.choice(['dns', 'refused', 'unreachable'])
        elif r < 0.16:
            f['connect_delay'] = rng.choice([5, 29, 31, 1e4, INF])
        elif r < 0.2:
            f['send'] = 'reset'
        elif r < 0.3:
            f['first'] = rng.choice([1, 20, 29, 60, 1e5, INF])
        elif r < 0.55:
            f['stop'] = {'x': round(rng.choice([rng.random(), rng.random() ** 3, 0.0, 0.999]), 4),
                         'how': rng.choice(['stall', 'reset', 'close', 'close'])}
        elif r < 0.7:
            f['status'] = rng.choice([400, 401, 403, 403, 404, 410, 418, 429, 429, 500, 502, 503, 504])
            f['body'] = rng.choice(['json', 'html', 'empty', 'list', 'file'])
        elif r < 0.78:
            f['odd'] = rng.choice(['html', 'empty', 'object', 'null', 'strings', 'cut'])
        elif r < 0.82:
            f['redirect'] = 'loop'
        if rng.random() < 0.3:
            f['chunk'] = rng.choice([1, 7, 100, 1000])
            f['next'] = rng.choice([0, 0, 0.01, 2])
            if f['chunk'] == 1 and f['next'] > 0.1:
                f['next'] = 0.001
        f['framing'] = rng.choice(['length', 'length', 'length', 'chunked', 'chunked', 'close'])
        if f.get('stop') and f['framing'] == 'close' and rng.random() < 0.5:
            f['framing'] = 'chunked'
        f['encoding'] = rng.choice([None, None, None, 'gzip', 'deflate'])
        return f

    def gen(self, rng, tier):
        files = []
        for i in range(rng.randint(1, 4)):
            f = gen_rfile(rng, fmts=[x for x in formats.FORMATS if x != 'xyz'], hi=16)
            f['spec']['ny'], f['spec']['nx'] = min(16, f['spec']['ny']), min(16, f['spec']['nx'])
            files.append(f)
        acts = []
        for _ in range(rng.randint(1, 5)):
            a = {'do': rng.choice(['list', 'load', 'load']), 'i': rng.randrange(8), 'filter': rng.random() < 0.3,
                 'faults': [self.gen_fault(rng) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.7 else [],
                 'change': rng.choice([None, None, None, 'replace', 'remove', 'add'])}
            acts.append(a)
        return {'files': files, 'names': [rng.choice(['a{}', 'probe {}', 'ü_{}', 'x.y{}']).format(i) for i in range(len(files))],
                'acts': acts, 'sched': {'mode': 'serial', 'tick': 1000}}

    def shrink(self, case):
        for a in shrink_list(case['acts'], 1):
            yield with_(case, acts=a)
        for i, a in enumerate(case['acts']):
            rest = lambda x: case['acts'][:i] + [x] + case['acts'][i + 1:]
            for x in shrink_list(a['faults']):
                yield with_(case, acts=rest(dict(a, faults=x)))
            if a['change']:
                yield with_(case, acts=rest(dict(a, change=None)))
            for j, f in enumerate(a['faults']):
                for k in f:
                    yield with_(case, acts=rest(dict(a, faults=a['faults'][:j] + [{q: v for q, v in f.items() if q != k}] +
                                                     a['faults'][j + 1:])))

    def run(self, case, ctx):
        import urllib3.connection
        import urllib3.util.connection
        import surfalize.examples as ex
        for k in list(os.environ):
            if k.lower().endswith('_proxy') or k in ('REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE', 'NETRC'):
                del os.environ[k]
        os.environ['HOME'] = ctx.tmp
        sim = new_sim(case, ctx, trace_lines=False)
        server = Server(ctx)
        net = Net(ctx, sim, server)
        rfs = {}
        for n, f in zip(case['names'], case['files']):
            rf = RFile(f)
            name = n + rf.suffix
            server.files[name], rfs[name] = rf.bytes, rf
        urllib3.util.connection.create_connection = net.connect
        # time-outs of urllib3 are measured with this clock
        HS = urllib3.connection.HTTPSConnection

        def connect(self):
            self.sock = self._new_conn()
            self.is_verified = True
        HS.connect = connect
        first = dict(rfs)
        with sim:
            for n, a in enumerate(case['acts']):
                self.change(ctx, server, rfs, first, a, n)
                for heal in (False, True):
                    net.script = [] if heal else [dict(f) for f in a['faults']]
                    loops = any(f.get('redirect') for f in net.script)
                    if loops:
                        net.script = [dict(f) for f in net.script] + [{'redirect': 'loop'}] * 40
                    t0, spent = sim.now, net.spent
                    if a['do'] == 'list':
                        self.list(ctx, ex, server, rfs, net, a, n, heal)
                    else:
                        self.load(ctx, ex, server, rfs, net, a, n, heal)
                    took = (sim.now - t0) / 1e9
                    if took > 900 + (net.spent - spent):
                        ctx.violate('takes-too-long', f'call {n} {a} took {took:.0f} simulated seconds')
                    if not a['faults']:
                        break
                    if heal:
                        ctx.probe('recovered')
        for k in list(ctx.faults):
            if k in ('answer truncated', 'error status', 'connection reset', 'redirect loop'):
                ctx.probe(k)
            if k.startswith('time-out'):
                ctx.probe('time-out')
        ctx.nontrivial = bool(ctx.faults) or len(case['acts']) > 1
        ctx.key = [short_hash(case['files']), short_hash(case['acts'])]
        ctx.sample = {'requests': len(net.requests)}

    @staticmethod
    def change(ctx, server, rfs, first, a, n):
        if a['change'] is None or n == 0:
            return
        ctx.probe('server changed')
        names = sorted(server.files)
        if a['change'] == 'replace' and len(first) > 1:
            # two files with the same suffix swap their contents, or one is added under another name
            x = names[a['i'] % len(names)]
            same = [y for y in names if y != x and rfs[y].suffix == rfs[x].suffix]
            if same:
                y = same[0]
                server.files[x], server.files[y] = server.files[y], server.files[x]
                rfs[x], rfs[y] = rfs[y], rfs[x]
        elif a['change'] == 'remove' and len(names) > 1:
            x = names[a['i'] % len(names)]
            del server.files[x]
        elif a['change'] == 'add':
            x = names[a['i'] % len(names)]
            y = f'new{n}_' + x
            server.files[y], rfs[y] = server.files[x], rfs[x]

    def list(self, ctx, ex, server, rfs, net, a, n, heal):
        want = sorted(server.files)
        fmt = None
        if a['filter']:
            fmt = os.path.splitext(want[a['i'] % len(want)])[1]
            want = [w for w in want if w.endswith(fmt)]
            ctx.probe('filtered list')
        where = f'call {n} {a}{" after the fault" if heal else ""}'
        try:
            got = ex.list_examples(format=fmt) if fmt else ex.list_examples()
        except Exception as e:
            ctx.probe('list failed')
            ctx.event(n, type(e).__name__)
            if heal or not a['faults']:
                ctx.violate('not-recovered' if heal else 'refused', f'{where}: {exc_text(e)} without a fault')
            return
        ctx.probe('list ok')
        names = sorted(f.name for f in got)
        ctx.event(n, names)
        if names != want:
            ctx.violate('wrong-list', f'{where}: {names} instead of {want}')

    def load(self, ctx, ex, server, rfs, net, a, n, heal):
        names = sorted(rfs)
        name = names[a['i'] % len(names)]
        gone = name not in server.files
        f = ex.ExampleFile(name, 'https://raw.example.org/files/' + server.quote(name))
        where = f'call {n} {a} of {name!r}{" after the fault" if heal else ""}'
        try:
            s = f.load()
        except Exception as e:
            ctx.probe('load failed')
            ctx.event(n, type(e).__name__)
            if (heal or not a['faults']) and not gone:
                ctx.violate('not-recovered' if heal else 'refused', f'{where}: {exc_text(e)} without a fault')
            return
        ctx.probe('load ok')
        ctx.event(n, arr_digest(s.data))
        if gone:
            ctx.violate('wrong-surface', f'{where}: a surface although the server does not have the file')
            return
        rf = rfs[name]
        p = rf.problem(s)
        if p:
            # the one truncation that leaves a readable file behind (see S03): between heights and mask of a fits file
            if rf.fmt == 'fits' and 'being measured' in p and any(q.get('framing') == 'close' and q.get('stop') for q in a['faults']):
                ctx.event('truncated before the mask')
                return
            ctx.violate('wrong-surface', f'{where}: {p}')


# ==================================================================================================================== P01
class P01(FileBase):
    REAL = ['surfalize.cli convert through click, surfalize.surface.Surface.load/save, all readers and writers']
    STUB = ['the raw layer of files (FileIO subclass following a fault plan)', 'file size limit']
    RULE = 'A run counts as non-trivial when several files were converted or a fault was injected.'
    MUST_PROBE = ['single file', 'directory', 'converted', 'failed', 'same stem', 'layers kept', 'layers skipped',
                  'disk full', 'read I/O error', 'healed', 'compressed', 'foreign files',
                  'converted before']
    ASSUMPTIONS = FileBase.ASSUMPTIONS + ['the target is another place than the source']

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 2, 3, 4, 6])
        files = []
        for i in range(n):
            f = gen_rfile(rng, hi=14)
            f['spec']['ny'], f['spec']['nx'] = min(16, f['spec']['ny']), min(16, f['spec']['nx'])
            f['name'] = rng.choice(['a', 'a', 'b', 'c.x', 'Ä ö', 'a.vk4', 'a.sur', '.hid', '[a]', f'n{i}'])
            f['upper'] = rng.random() < 0.1
            files.append(f)
        calls = []
        for _ in range(rng.choice([1, 1, 2])):
            fmt = rng.choice([None, '.sur', '.sdf', '.sflz', '.sflz', '.al3d', '.tmd'])
            c = {'dir': rng.random() < 0.65, 'i': rng.randrange(n), 'fmt': fmt, 'skip': rng.random() < 0.3,
                 'compressed': fmt in (None, '.sur') and rng.random() < 0.3, 'out': rng.choice(['out', 'out', 'new/deep']),
                 'suffix': rng.choice(['.sur', '.sdf', '.sflz', '.sflz', '.tmd', '.al3d', '']), 'rel': rng.random() < 0.3}
            r = rng.random()
            if r < 0.3:
                c['wfault'] = self.gen_wf(rng)
            elif r < 0.5:
                c['rfault'] = gen_rfault(rng, alloc=False)
            elif r < 0.6:
                c['damage'] = rng.choice(['cut', 'garbage', 'empty'])
            c['on'] = rng.randrange(n)
            if rng.random() < 0.45:
                # the same conversion has been done before: of other contents of the files, and perhaps it broke off
                c['earlier'] = {'what': rng.choice(['changed', 'changed', 'torn', 'garbage']),
                                'clock': rng.choice(['older', 'newer', 'same', 'as is']), 'x': rng.random(),
                                'part': rng.random() < 0.3}
            calls.append(c)
        return {'files': files, 'calls': calls, 'foreign': rng.random() < 0.4}

    def gen_wf(self, rng):
        n = rng.choice([0, 1, rng.randrange(0, 600), rng.randrange(0, 3000)])
        r = rng.random()
        if r < 0.4:
            return {'kind': 'enospc', 'at': n}
        if r < 0.6:
            return {'kind': 'eio-write', 'call': rng.choice([0, 0, 1, 2, 4]), 'times': rng.choice([1, 1 << 30])}
        if r < 0.7:
            return {'kind': 'short-write', 'seed': rng.getrandbits(16)}
        if r < 0.8:
            return {'kind': 'close', 'lost': rng.choice([0, 1, 100])}
        if r < 0.85:
            return {'kind': 'open', 'times': 1, 'errno': rng.choice(['EMFILE', 'EACCES', 'EROFS', 'EIO', 'ENOSPC', 'EPERM'])}
        return {'kind': 'rlimit', 'at': n}

    def shrink(self, case):
        for c in shrink_list(case['calls'], 1):
            yield with_(case, calls=c)
        for f in shrink_list(case['files'], 1):
            yield with_(case, files=f)
        if case['foreign']:
            yield with_(case, foreign=False)
        for i, c in enumerate(case['calls']):
            rest = lambda x: case['calls'][:i] + [x] + case['calls'][i + 1:]
            for k in ('wfault', 'rfault', 'damage', 'earlier'):
                if k in c:
                    yield with_(case, calls=rest({q: v for q, v in c.items() if q != k}))
            for alt in ({'compressed': False}, {'skip': False}, {'rel': False}):
                if any(c[k] != v for k, v in alt.items()):
                    yield with_(case, calls=rest(dict(c, **alt)))
        for i, f in enumerate(case['files']):
            s = f['spec']
            for alt in ({'ny': 4, 'nx': 4}, {'nan': 0.0}):
                if any(s.get(k) != v for k, v in alt.items()):
                    yield with_(case, files=case['files'][:i] + [dict(f, spec=dict(s, **alt))] + case['files'][i + 1:])

    def run(self, case, ctx):
        from click.testing import CliRunner
        from surfalize.cli import cli
        warnings.simplefilter('ignore')
        src = os.path.join(ctx.tmp, 'd', 'in')
        os.makedirs(src)
        os.chdir(ctx.tmp)
        rfs = {}
        for f in case['files']:
            rf = RFile(f)
            if rf.suffix not in supported_formats_read:
                continue
            suf = rf.suffix.upper() if f['upper'] else rf.suffix
            rfs[f['name'] + suf] = rf
        for name, rf in rfs.items():
            with open(os.path.join(src, name), 'wb') as fh:
                fh.write(rf.bytes)
        if case['foreign']:
            ctx.probe('foreign files')
            with open(os.path.join(src, 'readme.txt'), 'w') as fh:
                fh.write('not a surface')
            os.makedirs(os.path.join(src, 'sub.sur'))
            with open(os.path.join(src, 'noext'), 'w') as fh:
                fh.write('x')
        names = sorted(rfs)
        nconv = 0
        for k, c in enumerate(case['calls']):
            for heal in (False, True):
                out = os.path.join(ctx.tmp, 'd', f'{c["out"]}{k}{int(heal)}')
                nconv += self.call(ctx, CliRunner, cli, c, heal, src, out, rfs, names, k)
                if not any(q in c for q in ('wfault', 'rfault', 'damage')):
                    break
        ctx.nontrivial = nconv > 1 or bool(ctx.faults)
        ctx.key = [short_hash(case['files']), short_hash(case['calls'])]
        ctx.sample = {'converted': nconv}

    def call(self, ctx, CliRunner, cli, c, heal, src, out, rfs, names, k):
        victim = names[c['on'] % len(names)]
        faulty = {q: c[q] for q in ('wfault', 'rfault', 'damage') if q in c} if not heal else {}
        vpath = os.path.join(src, victim)
        damaged = None
        if 'damage' in faulty:
            b = rfs[victim].bytes
            damaged = {'cut': b[:len(b) // 2], 'garbage': bytes((i * 7 + 13) & 255 for i in range(400)), 'empty': b''}[faulty['damage']]
            with open(vpath, 'wb') as fh:
                fh.write(damaged)
            ctx.fault('damaged source')
        else:
            with open(vpath, 'wb') as fh:
                fh.write(rfs[victim].bytes)
        fmt = c['fmt'] or '.sur'
        args = ['convert']
        single = None
        if c['dir']:
            ctx.probe('directory')
            args += [src, out]
            if c['fmt']:
                args += ['--format', c['fmt']]
        else:
            ctx.probe('single file')
            single = names[c['i'] % len(names)]
            os.makedirs(out, exist_ok=True)
            sfx = c['suffix'] or ''
            if c['compressed'] and sfx not in ('', '.sur'):
                sfx = '.sur'
            if sfx:
                fmt = sfx
            elif fmt != '.sur' or True:
                # without a suffix the name does not say what to write: this is refused or written as --format
                sfx = fmt
            target = os.path.join(out, 'r' + sfx)
            if c['rel']:
                target = os.path.relpath(target, ctx.tmp)
            args += [os.path.join(src, single), target]
            if c['fmt'] and c['fmt'] == fmt:
                args += ['-f', c['fmt']]
        if c['skip']:
            args.append('--skip-image-layers')
        if c['compressed']:
            args.append('--compressed')
            ctx.probe('compressed')
        if 'earlier' in c:
            self.earlier(ctx, CliRunner, cli, c['earlier'], args, src, out, rfs)
        before = self.tree(src)
        stems = [os.path.splitext(n)[0] for n in names]
        if c['dir'] and len(set(stems)) < len(stems):
            ctx.probe('same stem')
        plan = None
        rl = None
        with Disk(os.path.join(ctx.tmp, 'd')) as disk:
            if 'rfault' in faulty:
                f = faulty['rfault']
                plan = Plan(ctx, f)
                if f['kind'] == 'eio-read':
                    plan.spec = dict(f, at=int(f['x'] * len(rfs[victim].bytes)))
                disk.rules[os.path.realpath(vpath)] = plan
            elif 'wfault' in faulty:
                f = faulty['wfault']
                if f['kind'] == 'rlimit':
                    rl = f['at']
                else:
                    plan = Plan(ctx, f)
                    n = [0]
                    real = disk.plan_for
                    root = os.path.realpath(src) + os.sep

                    def plan_for(file, mode, real=real):
                        if real(file, mode) is None and not any(x in mode for x in 'wax+'):
                            return None
                        try:
                            p = os.path.realpath(os.fspath(file))
                        except TypeError:
                            return None
                        if p.startswith(root) or not p.startswith(disk.root + os.sep):
                            return None
                        n[0] += 1
                        # the output of one of the files meets the fault, or all do
                        return plan if c['on'] % 2 or n[0] == 1 + c['on'] // 2 else None
                    disk.plan_for = plan_for
            if rl is not None:
                with file_size_limit(rl):
                    r = CliRunner().invoke(cli, args)
            else:
                r = CliRunner().invoke(cli, args)
            if plan is not None:
                plan.heal()
        fired = bool(plan is not None and plan.fired)
        where = f'call {k} {args[1:]} with {faulty or "no fault"}'
        text = r.output
        done = re.findall(r'^Converted (.+?) → (.+)$', text, re.M)
        ctx.event(k, heal, r.exit_code, type(r.exception).__name__, sorted((os.path.basename(a), os.path.basename(b)) for a, b in done))
        if rl is not None and r.exit_code != 0:
            ctx.fault('file size limit')
            fired = True
        # sources are as they were
        if self.tree(src) != before:
            ctx.violate('source-changed', f'{where}')
        if r.exit_code == 0:
            ctx.probe('converted')
            if heal:
                ctx.probe('healed')
            want = {single} if single else set(names)
            got = {os.path.basename(a) for a, b in done}
            if got != want:
                ctx.violate('not-all-converted', f'{where}: exit status 0, converted {sorted(got)} of {sorted(want)}; output: {text[:300]}')
        else:
            ctx.probe('failed')
            if not faulty:
                ctx.violate('refused', f'{where}: exit status {r.exit_code}, {exc_text(r.exception)}; output: {text[:300]}')
        outs = collections.Counter(os.path.realpath(b) for a, b in done)
        for p, n in outs.items():
            if n > 1:
                ctx.violate('overwritten', f'{where}: {n} files were converted to {p}')
        for a, b in done:
            rf = rfs.get(os.path.basename(a))
            if rf is None:
                ctx.violate('converted-what', f'{where}: {a}')
                continue
            if damaged is not None and os.path.basename(a) == victim:
                # a truncated point list or the like may be a valid file in itself, and a file cut off behind its heights
                # (in layers that are skipped) still holds everything that was asked for
                if rf.fmt not in ('xyz', 'fits') and (faulty['damage'] != 'cut' or self.output_problem(ctx, rf, b, fmt, c)):
                    ctx.violate('acknowledged-but-wrong', f'{where}: the damaged source {a} was reported as converted')
                continue
            p = self.output_problem(ctx, rf, b, fmt, c)
            if p:
                ctx.violate('acknowledged-but-wrong', f'{where}: {os.path.basename(a)} → {os.path.basename(b)}: {p}')
        return len(done)

    @staticmethod
    def earlier(ctx, CliRunner, cli, e, args, src, out, rfs):
        """Leave behind in the output directory what an earlier conversion, of other contents of the same files, wrote"""
        ctx.probe('converted before')
        now = {n: open(os.path.join(src, n), 'rb').read() for n in rfs}
        for n, rf in rfs.items():
            old = RFile(dict(rf.c, spec=dict(rf.c['spec'], seed=rf.c['spec'].get('seed', 0) + 1), sx=rf.c['sx'] * 2))
            with open(os.path.join(src, n), 'wb') as fh:
                fh.write(old.bytes)
        CliRunner().invoke(cli, args)
        outs = sorted(os.path.join(d, f) for d, _, fs in os.walk(out) for f in fs)
        for i, p in enumerate(outs):
            if e['part'] and i % 2:
                os.remove(p)
                continue
            size = os.path.getsize(p)
            if e['what'] == 'torn':
                ctx.fault('torn output left behind')
                os.truncate(p, int(size * e['x']))
            elif e['what'] == 'garbage':
                with open(p, 'r+b') as fh:
                    fh.write(bytes((j * 11 + 5) & 255 for j in range(size + 300)))
        t = 1_600_000_000
        for n, b in now.items():
            q = os.path.join(src, n)
            with open(q, 'wb') as fh:
                fh.write(b)
            if e['clock'] != 'as is':
                os.utime(q, (t, t))
        for p in outs:
            if os.path.exists(p) and e['clock'] != 'as is':
                d = {'older': -1000, 'newer': 1000, 'same': 0}[e['clock']]
                os.utime(p, (t + d, t + d))

    @staticmethod
    def output_problem(ctx, rf, path, fmt, c):
        if not os.path.exists(path):
            return 'the output does not exist'
        if os.path.splitext(path)[1] != fmt:
            return f'the output does not have the suffix {fmt}'
        with open(path, 'rb') as f:
            head = f.read(12)
        magic = {'.sur': (b'DSCOMPRESSED',) if c['compressed'] else (b'DIGITAL SURF',), '.sdf': (b'bISO-1.0', b'aISO-1.0'),
                 '.sflz': (), '.al3d': (b'AliconaImag',), '.tmd': (b'Binary TrueM',)}[fmt]
        if magic and not head.startswith(magic):
            return f'the output starts with {head!r}'
        lay = fmt == '.sflz'
        try:
            s = Surface.load(path, read_image_layers=lay)
        except Exception as e:
            return f'the output cannot be loaded: {exc_text(e)}'
        w = [fmt, {}]
        ref = rf.data
        p = readback_problem(s, w, ref, rf.sx, rf.sy, {}, False)
        if p and 'differ by' in p:
            # precision of the source format itself
            if s.data.shape == ref.shape and np.allclose(s.data, ref, rtol=1e-5, atol=1e-6 + 4e-6 *
                                                         float(np.nanmax(np.abs(ref), initial=0)), equal_nan=True):
                p = None
        if p and 'step' in p and np.isclose(s.step_x, rf.sx, rtol=1e-5, atol=0) and np.isclose(s.step_y, rf.sy, rtol=1e-5, atol=0):
            p = None
        if p:
            return p
        if lay:
            if c['skip']:
                ctx.probe('layers skipped')
                if s.image_layers and rf.fmt not in ('sflz', 'sflzf'):
                    return f'has image layers {sorted(s.image_layers)} although they were to be skipped'
            else:
                for k, v in rf.layers.items():
                    ctx.probe('layers kept')
                    if k not in s.image_layers:
                        return f'image layer {k!r} is missing'
                    if not np.array_equal(s.image_layers[k].data, v):
                        return f'image layer {k!r} differs'
        return None

    @staticmethod
    def tree(d):
        out = {}
        for r, ds, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                with open(p, 'rb') as fh:
                    out[p] = fh.read()
        return out
