"""
Batch scenarios: the real Batch/ThreadPool code under the simulated scheduler.

The oracle never touches the batch module: it loads each file on its own and calls the Surface methods directly, in a
forked copy of the process.
"""
import io
import os
import shutil
import sys
import json
import copy
import hashlib
import threading
import warnings

import numpy as np
import scipy.optimize

import simsched
import gen
import formats
from util import (new_sim, isolated, num_equal, arr_digest, exc_text, shrink_list, with_, short_hash, arr_equal)

import surfalize
from surfalize import Surface, Batch
from surfalize.batch import FileInput
from surfalize.exceptions import CalculationError, BatchError
import surfalize.batch

_Parameter = getattr(surfalize.batch, '_Parameter', None)

REAL = ['surfalize.batch (Batch, BatchResult, steps, dispatch)', 'surfalize.surface / base / cache / readers',
        'multiprocessing.pool.ThreadPool, queue, threading.Condition/Event/Semaphore from the standard library',
        'numpy / scipy / pandas / openpyxl']
STUB = ['thread scheduler, locks and clock (seeded simulator)', 'CPU count', 'file opening for injected I/O errors',
        'curve_fit and parameter methods when a calculation failure is injected']


class Injected(Exception):
    """Raised by injected user code."""


EXCS = {'own': Injected, 'type': TypeError, 'key': KeyError, 'calc': CalculationError, 'os': OSError,
        'interrupt': KeyboardInterrupt, 'file': FileNotFoundError, 'zero': ZeroDivisionError, 'value': ValueError,
        'linalg': np.linalg.LinAlgError, 'stop': StopIteration, 'runtime': RuntimeError, 'memory': MemoryError, 'exit': SystemExit}


# ----------------------------------------------------------------------------------------------- user supplied functions
def _c_median(surface):
    return {'height_median': float(np.nanmedian(surface.data))}


def _c_mean_std(surface):
    return {'mean_value': float(np.nanmean(surface.data)), 'std_value': float(np.nanstd(surface.data))}


def _c_uses_param(surface):
    return {'twice_Sq': 2 * surface.Sq()}


def _c_shape(surface):
    return {'shape_y': surface.size.y, 'shape_x': surface.size.x, 'step': surface.step_x}


def _c_text(surface):
    return {'label': 'rough' if surface.std() > 1 else 'smooth'}


def _calc_fail(surface):
    if _pick(surface, 2) == 0:
        raise CalculationError('no result for this surface')
    return {'sometimes': float(surface.max())}


def _calc_always(surface):
    raise CalculationError('never a result')


def _pick(surface, m):
    """A stable pseudo-random class of the surface's content."""
    a = np.round(np.nan_to_num(np.asarray(surface.data, dtype='f8')), 6)
    return int.from_bytes(hashlib.blake2b(a.tobytes(), digest_size=4).digest(), 'big') % m


CUSTOM_PARAMS = {'median': _c_median, 'mean_std': _c_mean_std, 'uses_param': _c_uses_param, 'shape': _c_shape,
                 'text': _c_text, 'calc_fail': _calc_fail, 'calc_always': _calc_always}


def _o_edit(surface):
    surface[0, 0] = 3.25


def _o_clip(surface):
    surface.data = np.clip(surface.data, -2.0, 2.0)


def _o_mask(surface):
    surface[surface.data > 2.5] = 0.0


def _o_method(surface):
    surface.center(inplace=True)


CUSTOM_OPS = {'edit': _o_edit, 'clip': _o_clip, 'mask': _o_mask, 'method': _o_method}


# ------------------------------------------------------------------------------------------------------------ generators
NAMES = ['sample', 'P1_N{}', 'mess ung {}', 'prøve_{}', 'a.b_{}', 'x{}', '[{}] x', 'a*b?{}']


def gen_file(rng, i, fmts=None, bytes_p=0.3, lo=10, hi=24):
    f = rng.choice(fmts or ['sdfb', 'sdfb', 'sflzf', 'plu', 'sur', 'tmd', 'gwy', 'al3d', 'x3p', 'opd4', 'os3d', 'plux',
                            'vk4', 'fits', 'sdfa', 'nms', 'dat', 'surz', 'zmg', 'opd'])
    spec = gen.surface_spec(rng, nan_p=0.25 if f in formats.NAN_FORMATS else 0.0, lo=lo, hi=hi)
    sx, sy = gen.step_size(rng)
    name = rng.choice(NAMES).replace('{}', str(i)) + (f'_{i}' if rng.random() < 0.5 else '')
    kind = 'path'
    if rng.random() < bytes_p:
        kind = rng.choice(['bytes', 'bytes', 'fileobj'])
    alias = None
    if kind == 'path' and f in formats.MAGIC_FORMATS and rng.random() < 0.08:
        alias = rng.choice(['.plu', '.sur', '.zzz', '.vk4', '.dat'])
    extra = {}
    if kind != 'path' and rng.random() < 0.25:
        # the name of a stream is a label; its format is given, or found from the contents
        alias = rng.choice(['.plu', '.sur', '.bin', ' 1.5 µm', '.vk4', '.2'])
        if f in formats.MAGIC_FORMATS and rng.random() < 0.6:
            extra['noformat'] = True
    if kind == 'bytes' and rng.random() < 0.3:
        extra['at'] = rng.choice([1, 7, 600])
    if kind == 'path' and alias is None and rng.random() < 0.06:
        alias = formats.SUFFIX[f].upper()
    return {**extra, 'fmt': f, 'spec': spec, 'sx': sx, 'sy': sy, 'seed': rng.getrandbits(16), 'name': f'f{i}_{name}',
            'kind': kind, 'alias': alias}


def gen_steps(rng, nops=(0, 4), nparams=(1, 6), heavy=0.25, custom=0.35):
    steps = []
    for _ in range(rng.randint(*nops)):
        if rng.random() < custom * 0.6:
            steps.append(['cop', rng.choice(list(CUSTOM_OPS)), [], {}, None])
        else:
            n, a, k = gen.gen_op(rng, names=gen.OPS if rng.random() < heavy else gen.SAFE_OPS)
            steps.append(['op', n, a, k, None])
    used = set()
    curves = rng.random() < 0.12
    for j in range(rng.randint(*nparams)):
        if rng.random() < custom * 0.5:
            free = [c for c in CUSTOM_PARAMS if c not in used and not c.startswith('calc')]
            if free:
                c = rng.choice(free)
                used.add(c)
                steps.append(['cparam', c, [], {}, None])
                continue
        n, a, k = gen.gen_param(rng, names=gen.CHEAP_PARAMS if not curves else
                                gen.PARAMS if rng.random() < heavy + 0.2 else gen.FAST_PARAMS)
        cn = None
        if n in used or rng.random() < 0.15:
            cn = f'{n}_v{j}'
        if (cn or n) in used:
            continue
        used.add(cn or n)
        how = 'param'
        r = rng.random()
        if r < 0.2:
            how = 'rp'          # through roughness_parameters with a parameter object
        elif r < 0.35 and not a and not k and cn is None:
            how = 'rps'         # through roughness_parameters with a string
        steps.append([how, n, a, k, cn])
    if rng.random() < 0.5:
        rng.shuffle(steps)
    if rng.random() < 0.05 and not all(is_param(s) for s in steps):
        # operations alone: the rows hold the names of the files only
        return [s for s in steps if not is_param(s)]
    if not any(s[0] in ('param', 'cparam', 'rp', 'rps') for s in steps):
        steps.append(['param', 'Sz', [], {}, None])
    return steps


def is_param(s):
    return s[0] in ('param', 'cparam', 'rp', 'rps')


# ---------------------------------------------------------------------------------------------------------- environment
class World:
    """The files of one run."""

    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.handles = []
        self.blobs = []
        self.paths = []
        self.streams = {}
        for i, f in enumerate(case['files']):
            data = gen.make_data(f['spec'])
            b = formats.encode(f['fmt'], data, f['sx'], f['sy'], {'seed': f['seed']})[0]
            bad = f.get('bad')
            if bad == 'truncated':
                b = b[:max(8, len(b) // 3)]
            elif bad == 'garbage':
                b = bytes((x * 7 + 13) & 255 for x in range(300))
            self.blobs.append(b)
            name = f['name'] + (f['alias'] or formats.SUFFIX[f['fmt']])
            p = os.path.join(ctx.tmp, name)
            self.paths.append(p)
            if f['kind'] != 'bytes' and bad != 'missing':
                with open(p, 'wb') as fh:
                    fh.write(b)

    def heal(self):
        for i, f in enumerate(self.case['files']):
            if f.get('bad'):
                data = gen.make_data(f['spec'])
                b = formats.encode(f['fmt'], data, f['sx'], f['sy'], {'seed': f['seed']})[0]
                self.blobs[i] = b
                if f['kind'] == 'path':
                    with open(self.paths[i], 'wb') as fh:
                        fh.write(b)
                elif i in self.streams:
                    self.streams[i].data = io.BytesIO(b)

    def name(self, i):
        return os.path.basename(self.paths[i])

    def make_inputs(self, index=None):
        out = []
        for i, f in enumerate(self.case['files']):
            if index is not None and i not in index:
                continue
            if f['kind'] == 'path':
                from pathlib import Path
                out.append(Path(self.paths[i]) if f['seed'] % 2 else self.paths[i])
            else:
                at = f.get('at', 0)
                data = io.BytesIO(b'\xa5' * at + self.blobs[i]) if f['kind'] == 'bytes' else open(self.paths[i], 'rb')
                data.seek(at if f['kind'] == 'bytes' else 0)
                fi = FileInput(self.name(i), data) if f.get('noformat') else \
                    FileInput(self.name(i), data, formats.SUFFIX[f['fmt']])
                self.streams[i] = fi
                out.append(fi)
        return out

    def load(self, i):
        f = self.case['files'][i]
        if f['kind'] == 'path':
            return Surface.load(self.paths[i])
        if f.get('noformat'):
            return Surface.load(io.BytesIO(self.blobs[i]))
        if f['kind'] == 'bytes':
            return Surface.load(io.BytesIO(self.blobs[i]), format=formats.SUFFIX[f['fmt']])
        with open(self.paths[i], 'rb') as fh:
            return Surface.load(fh, format=formats.SUFFIX[f['fmt']])


def oracle_row(world, i, steps, ignore_errors, preserve):
    """Direct use of the Surface class. -> ('ok', row) | ('fail', exception class name, message)"""
    try:
        s = world.load(i)
        row = {'file': world.name(i)}
        order = steps if preserve else ([x for x in steps if not is_param(x)] + [x for x in steps if is_param(x)])
        for st in order:
            how, n, a, k, cn = st
            if how == 'cop':
                CUSTOM_OPS[n](s)
            elif how == 'op':
                _, aa, kk = gen.call_args([n, a, k])
                kk['inplace'] = True
                getattr(s, n)(*aa, **kk)
            elif how == 'cparam':
                try:
                    row.update(CUSTOM_PARAMS[n](s))
                except CalculationError:
                    if not ignore_errors:
                        raise
                    row.update({q: float('nan') for q in CUSTOM_LABELS[n]})
            else:
                _, aa, kk = gen.call_args([n, a, k])
                label = cn or n
                try:
                    v = getattr(s, n)(*aa, **kk)
                except CalculationError:
                    if not ignore_errors:
                        raise
                    v = [float('nan')] * 2 if n in gen.TWO_VALUED else float('nan')
                if n in gen.TWO_VALUED:
                    for q, x in zip(gen.TWO_VALUED[n], v):
                        row[f'{label}_{q}'] = float(x)
                else:
                    row[label] = float(v)
        return ('ok', row)
    except BaseException as e:
        return ('fail', type(e).__name__, str(e)[:200])


CUSTOM_LABELS = {'calc_fail': ['sometimes'], 'calc_always': []}
OPTIONAL = {'sometimes'}        # the labels of a user function that failed are not known to the batch


def build_batch(world, steps, index=None, via=None, extra=None):
    ins = world.make_inputs(index)
    if via == 'add':
        b = Batch(ins[:1])
        if len(ins) > 1:
            b.add_files(ins[1:])
    elif via == 'single':
        b = Batch([])
        for x in ins:
            b.add_files(x)
    elif via == 'tuple':
        b = Batch(tuple(ins[:1]))
        if len(ins) > 1:
            b.add_files(tuple(ins[1:]))
    elif via == 'iter':
        b = Batch(x for x in ins)
    elif via == 'array':
        a = np.empty(len(ins), dtype=object)
        a[:] = ins
        b = Batch(a[:1]).add_files(a[1:])
    elif via == 'own-list':
        # the list stays the caller's: what happens to it later is no business of the batch
        lst = list(ins[:1])
        b = Batch(lst)
        lst[:] = ins[1:]
        b.add_files(lst)
        lst.clear()
    else:
        b = Batch(ins)
    add_steps(b, steps)
    return b


def add_steps(b, steps):
    for how, n, a, k, cn in steps:
        if how == 'cop':
            b.custom_operation(CUSTOM_OPS[n])
        elif how == 'cparam':
            b.custom_parameter(CUSTOM_PARAMS[n])
        elif how == 'rps':
            b.roughness_parameters([n])
        elif how == 'rp' and _Parameter is not None:
            _, aa, kk = gen.call_args([n, a, k])
            b.roughness_parameters([_Parameter(n, args=tuple(aa), kwargs=kk, custom_name=cn)])
        else:
            _, aa, kk = gen.call_args([n, a, k])
            if cn is not None:
                kk['custom_name'] = cn
            r = getattr(b, n)(*aa, **kk)
            assert r is b


class Inject:
    """Failing calculations, as a deterministic function of the surface's content."""

    def __init__(self, spec, on=None, exc=CalculationError):
        self.spec = spec or []
        self.saved = []
        self.on = on or (lambda: True)
        self.exc = exc

    def __enter__(self):
        for what, name, m in self.spec:
            if what == 'fit':
                # every least squares fit of a sine fails for one class of inputs
                real = scipy.optimize.curve_fit

                def fake(f, x, y, *a, _real=real, _m=m, **k):
                    h = hashlib.blake2b(np.round(np.asarray(y, 'f8'), 6).tobytes(), digest_size=4).digest()
                    if int.from_bytes(h, 'big') % _m == 0:
                        raise RuntimeError('Optimal parameters not found')
                    return _real(f, x, y, *a, **k)
                for mod in [scipy.optimize] + [q for n, q in list(sys.modules.items()) if n.split('.')[0] == 'surfalize']:
                    for k, v in list(vars(mod).items()):
                        if v is real:
                            self.saved.append((mod, k, real))
                            setattr(mod, k, fake)
            else:
                real = getattr(Surface, name)
                self.saved.append((Surface, name, Surface.__dict__.get(name)))
                setattr(Surface, name, self.failing(real, m, name))
        return self

    def failing(self, real, m, name):
        import functools
        on, exc = self.on, self.exc

        @functools.wraps(real)
        def method(self, *a, **k):
            if on() and _pick(self, m) == 0:
                raise exc(f'{name} has no result')
            return real(self, *a, **k)
        return method

    def __exit__(self, *a):
        for obj, name, val in reversed(self.saved):
            if val is None:
                delattr(obj, name)
            else:
                setattr(obj, name, val)
        return False


def set_cpus(n):
    os.cpu_count = lambda: n
    os.process_cpu_count = lambda: n
    try:
        os.sched_getaffinity = lambda pid: set(range(n))
    except Exception:
        pass
    import multiprocessing
    multiprocessing.cpu_count = lambda: n


def rows_of(result):
    df = result.get_dataframe()
    return [dict(zip(df.columns, vals)) for vals in df.itertuples(index=False, name=None)]


def row_problem(got, want):
    for k, v in want.items():
        if k not in got:
            if k in OPTIONAL:
                continue
            return f'column {k!r} is missing (expected {v!r})'
        if not num_equal(got[k], v):
            return f'{k}: {got[k]!r} instead of {v!r}'
    for k in got:
        if k not in want:
            if k in OPTIONAL and isinstance(got[k], float) and got[k] != got[k]:
                continue
            return f'unexpected column {k!r} = {got[k]!r}'
    return None


def compare_rows(ctx, got_rows, want_rows, tag):
    """Multiset comparison by file name and values."""
    left = list(want_rows)
    for g in got_rows:
        cands = [w for w in left if w['file'] == g.get('file')]
        if not cands:
            ctx.violate('row-unexpected', f'{tag}: row for {g.get("file")!r} is not expected (or appears too often)')
            continue
        probs = []
        for w in cands:
            p = row_problem(g, w)
            if p is None:
                left.remove(w)
                break
            probs.append(p)
        else:
            ctx.violate('row-wrong', f'{tag}: {g.get("file")}: {probs[0]}')
            left.remove(cands[0])
    for w in left:
        ctx.violate('row-missing', f'{tag}: no row for {w["file"]!r}')


class Callbacks:
    """Records every completion callback with the thread it ran on."""

    def __init__(self, ctx, sim, fail_at=None, fail_kind='own'):
        self.fail_kind = fail_kind
        self.raised = None
        self.calls = []
        self.ctx = ctx
        self.sim = sim
        self.inside = 0
        self.fail_at = fail_at
        self.closed = False
        self.owner = threading.get_ident()

    def __call__(self, result):
        if self.closed:
            self.ctx.violate('callback-late', 'a completion callback ran after execute had returned or raised')
        if self.inside:
            self.ctx.violate('callback-overlap', 'two completion callbacks ran at the same time')
        if threading.get_ident() != self.owner:
            self.ctx.violate('callback-thread', 'a completion callback ran on a worker thread, not the calling thread')
        self.inside += 1
        try:
            for _ in range(3):
                self.sim.point('callback')
            self.calls.append(dict(result))
            n = len(self.calls)
        finally:
            self.inside -= 1
        self.ctx.event('callback', result.get('file'))
        if self.fail_at is not None and n - 1 == self.fail_at:
            self.ctx.fault('callback raises')
            self.raised = EXCS[self.fail_kind]('callback failed')
            raise self.raised


class BatchBase:
    REAL = REAL
    STUB = STUB
    LEVEL = 'exploration'
    MUST_PROBE = []
    ASSUMPTIONS = ['numpy, scipy, pandas and the Python standard library behave as documented',
                   'preemption between source lines of the package and at every lock, queue and thread operation; '
                   'native numpy code runs without preemption',
                   'the per-file reference calls the same Surface methods directly, so an error inside a single '
                   'calculation that is the same on both sides is not seen']

    def base_case(self, rng, nfiles=(1, 7), **kw):
        n = rng.randint(*nfiles)
        files = [gen_file(rng, i) for i in range(n)]
        if n > 1 and rng.random() < 0.1:
            files[-1] = dict(files[0])
            files[-1]['kind'] = files[0]['kind'] = 'path'
        case = {'files': files, 'steps': gen_steps(rng, **kw), 'cpus': rng.choice([1, 2, 2, 3, 4, 4, 8]),
                'parallel': rng.random() < 0.9, 'preserve': rng.random() < 0.6, 'ignore': rng.random() < 0.8,
                'callback': rng.random() < 0.5, 'inject': [], 'via': rng.choice([None, None, None, 'add', 'add', 'single', 'tuple', 'iter', 'array', 'own-list']),
                'sched': simsched.draw_sched(rng, 2500)}
        return case

    def shrink(self, case):
        for files in shrink_list(case['files'], 1):
            yield with_(case, files=files)
        for steps in shrink_list(case['steps'], 1):
            yield with_(case, steps=steps)
        if case.get('inject'):
            for inj in shrink_list(case['inject']):
                yield with_(case, inject=inj)
        if case['cpus'] > 1:
            yield with_(case, cpus=max(1, case['cpus'] // 2))
        if case['callback']:
            yield with_(case, callback=False)
        if case.get('via'):
            yield with_(case, via=None)
        for q in ('again', 'use', 'extra'):
            if case.get(q) is not None:
                yield {k: v for k, v in case.items() if k != q}
        for i, f in enumerate(case['files']):
            if f['kind'] != 'path' or f['fmt'] != 'sdfb' or f['alias']:
                g = dict(f, kind='path', fmt='sdfb', alias=None)
                yield with_(case, files=case['files'][:i] + [g] + case['files'][i + 1:])
            if f['spec']['ny'] > 12 or f['spec']['nx'] > 12 or f['spec']['nan']:
                g = dict(f, spec=dict(f['spec'], ny=10, nx=10, nan=0.0))
                yield with_(case, files=case['files'][:i] + [g] + case['files'][i + 1:])

    # -- helpers for run()
    def usable_steps(self, world, case, keep_calc=True):
        """Oracle rows for all files, after dropping steps that are no valid use for these files."""
        steps = list(case['steps'])
        ign, pres = case['ignore'], case['preserve']

        def compute():
            st = list(steps)
            while True:
                rows = [oracle_row(world, i, st, ign, pres) for i in range(len(case['files']))]
                bad = [r for r in rows if r[0] == 'fail']
                if not bad:
                    return st, rows
                # find the first offending step by prefix
                for n in range(len(st) + 1):
                    if any(oracle_row(world, i, st[:n], ign, True)[0] == 'fail' for i in range(len(case['files']))):
                        break
                else:
                    n = len(st)
                if n == 0:
                    return None, rows
                st = st[:n - 1] + st[n:]
                if not st or not any(is_param(s) for s in st) and any(is_param(s) for s in steps):
                    st.append(['cparam', 'shape', [], {}, None])
        return isolated(compute)

    def finish_key(self, ctx, case, outcome):
        ctx.key = [len(case['files']), case['cpus'], case['parallel'], case['preserve'],
                   short_hash(case['steps']), short_hash([f['spec'] for f in case['files']]), outcome]


class B01(BatchBase):
    """Rows equal direct per-file use, under every schedule."""
    RULE = ('Seeded files (20 formats, paths/streams), random operation/parameter chains, worker counts 1-8 and a random '
            'thread schedule; non-trivial: at least two files processed by at least two workers with at least one '
            'context switch, or a sequential run with two files and two steps.')
    MUST_PROBE = ['parallel run', 'sequential run', 'operations after parameters', 'stream input', 'operations first mode',
                  'name taken', 'result used']

    def gen(self, rng, tier):
        case = self.base_case(rng)
        r = rng.random()
        if r < 0.12:
            case['extra'] = 'additional'
        elif r < 0.2:
            case['extra'] = 'pattern'
        elif r < 0.3:
            case['extra'] = 'from_dir'
            for f in case['files']:
                f['kind'] = 'path'
                if f['alias'] and not f['alias'].isupper():
                    f['alias'] = None
                f.pop('noformat', None)
                f.pop('at', None)
                if rng.random() < 0.1:
                    f['name'] = '.' + f['name']
        if rng.random() < 0.15:
            case['again'] = rng.randrange(8)
        if rng.random() < 0.15 and 'extra' not in case:
            case['use'] = True
        if rng.random() < 0.25:
            case['inject'] = [['param', rng.choice(['Sa', 'Sq', 'Sz', 'Smc', 'Vmc', 'depth', 'Sk']), 2]]
        return case

    def run(self, case, ctx):
        set_cpus(case['cpus'])
        world = World(case, ctx)
        with Inject(case['inject']):
            steps, want = self.usable_steps(world, case)
            if steps is None:
                ctx.probe('no usable pipeline')
                return
            want = [w[1] for w in want]
            with new_sim(case, ctx) as sim:
                self.go(case, ctx, world, steps, want, sim)
        pos = [i for i, s in enumerate(steps) if is_param(s)]
        if pos and any(not is_param(s) for s in steps[pos[0]:]):
            ctx.probe('operations after parameters')
        if not case['preserve']:
            ctx.probe('operations first mode')
        if any(f['kind'] != 'path' for f in case['files']):
            ctx.probe('stream input')
        ctx.probe('parallel run' if case['parallel'] else 'sequential run')
        n = len(case['files'])
        ctx.nontrivial = n >= 2 and ((case['parallel'] and case['cpus'] > 1 and ctx.sim.nswitch > 0) or
                                     (not case['parallel'] and len(steps) > 1))
        self.finish_key(ctx, case, 'ok')

    def go(self, case, ctx, world, steps, want, sim):
        extra = case.get('extra')
        kw = {}
        if extra in ('additional', 'pattern'):
            with sim.untraced():
                import pandas as pd
                names = sorted(set(w['file'] for w in want))
                if extra == 'additional':
                    xp = os.path.join(ctx.tmp, 'extra.xlsx')
                    pd.DataFrame({'file': names[::-1], 'fluence': [float(i) for i in range(len(names))][::-1]}).to_excel(xp)
                    want = [dict(w, fluence=float(names.index(w['file']))) for w in want]
                    kw['additional'] = xp
                else:
                    want = [dict(w, idx=int(w['file'][1:].split('_')[0])) for w in want]
        if extra == 'from_dir' and all(f['kind'] == 'path' and (not f['alias'] or f['alias'].isupper()) for f in case['files']):
            with sim.untraced():
                seen = {}
                for w in want:
                    seen[w['file']] = w
                want = list(seen.values())
                with open(os.path.join(ctx.tmp, 'notes.txt'), 'w') as fh:
                    fh.write('not a surface')
            sufs = sorted({os.path.splitext(p)[1].lower() for p in world.paths})
            how = case['files'][0]['seed'] % 4
            if how == 0:
                b = Batch.from_dir(ctx.tmp)
            elif how == 1:
                b = Batch([]).add_dir(ctx.tmp, file_extensions=sufs if len(sufs) > 1 else sufs[0])
            elif how == 2:
                b = Batch([]).add_dir(ctx.tmp)
            else:
                b = Batch.from_dir(ctx.tmp, file_extensions=sufs if len(sufs) > 1 else sufs[0])
            add_steps(b, steps)
        elif kw.get('additional'):
            b = Batch(world.make_inputs(), additional_data=kw['additional'])
            add_steps(b, steps)
            with sim.untraced():
                want = [w for w in want]
        else:
            b = build_batch(world, steps, via=case['via'])
        if extra == 'pattern':
            b.extract_from_filename('f<idx|int>_<rest|str>')
        ps = [s for s in steps if s[0] == 'param']
        if case.get('again') is not None and ps:
            # two columns cannot have the same name
            q = ps[case['again'] % len(ps)]
            try:
                add_steps(b, [q])
                ctx.violate('duplicate-accepted', f'the parameter {q} was registered twice')
                return
            except BatchError:
                ctx.probe('name taken')
        cb = Callbacks(ctx, sim) if case['callback'] else None
        try:
            res = b.execute(multiprocessing=case['parallel'], ignore_errors=case['ignore'],
                            preserve_chaining_order=case['preserve'], on_file_complete=cb)
        except Exception as e:
            ctx.violate('unexpected-exception', f'execute raised {exc_text(e)}')
            return
        with sim.untraced():
            got = rows_of(res)
            if case.get('use'):
                self.use_result(ctx, res, got)
            if extra == 'pattern':
                for g in got:
                    g.pop('rest', None)
            if extra == 'additional':
                for g in got:
                    g.pop('Unnamed: 0', None)
            compare_rows(ctx, got, want, 'result')
            if not case['parallel'] and extra not in ('additional', 'from_dir'):
                if [g['file'] for g in got] != [w['file'] for w in want]:
                    ctx.violate('row-order', 'a sequential run returns the rows in another order than the inputs')
            ctx.event('rows', sorted((str(g['file']), [repr(x) for x in g.values()]) for g in got))
            ctx.sample = {'files': len(want), 'columns': list(got[0]) if got else []}


    @staticmethod
    def use_result(ctx, res, got):
        """The result object stands for its table."""
        ctx.probe('result used')
        names = [g['file'] for g in got]
        try:
            if list(res['file']) != names or list(res.columns) != list(got[0]) or len(res.index) != len(got):
                ctx.violate('row-wrong', 'the result object shows other values than its table')
            res['twice'] = [2 * i for i in range(len(got))]
            res.extract_from_filename('f<idx|int>_<rest|str>')
            now = rows_of(res)
        except Exception as e:
            ctx.violate('unexpected-exception', f'using the result raised {exc_text(e)}')
            return
        for i, (a, b) in enumerate(zip(now, got)):
            b = dict(b, twice=2 * i, idx=int(names[i][1:].split('_')[0]))
            a.pop('rest', None)
            p = row_problem(a, b)
            if p:
                ctx.violate('row-wrong', f'after using the result: {p}')
        if len(now) != len(got):
            ctx.violate('row-missing', f'{len(now)} rows after using the result, {len(got)} before')


class B02(BatchBase):
    """Completion callback: exactly once per file, on the calling thread, one at a time, with the row's values."""
    RULE = ('As for the row property, always with a completion callback; non-trivial: at least two files and at least one '
            'context switch while callbacks were being made (parallel) or two files (sequential).')
    MUST_PROBE = ['parallel run', 'sequential run', 'callback raises']

    def gen(self, rng, tier):
        case = self.base_case(rng, nfiles=(1, 9), nops=(0, 2), nparams=(1, 3), heavy=0.1)
        case['callback'] = True
        case['fail_at'] = rng.randrange(len(case['files'])) if rng.random() < 0.3 else None
        if case['fail_at'] is not None:
            case['parallel'] = rng.random() < 0.7
        case['fail_kind'] = rng.choice(['own', 'own', 'type', 'key', 'calc', 'os', 'interrupt', 'file', 'stop', 'exit'])
        case['rerun'] = rng.random() < 0.2
        return case

    def run(self, case, ctx):
        set_cpus(case['cpus'])
        world = World(case, ctx)
        steps, want = self.usable_steps(world, case)
        if steps is None:
            return
        want = [w[1] for w in want]
        with new_sim(case, ctx) as sim:
            b = build_batch(world, steps)
            for rnd in range(2 if case['rerun'] else 1):
                cb = Callbacks(ctx, sim, fail_at=case['fail_at'], fail_kind=case.get('fail_kind', 'own'))
                try:
                    res = b.execute(multiprocessing=case['parallel'], ignore_errors=case['ignore'],
                                    preserve_chaining_order=case['preserve'], on_file_complete=cb)
                    if case['fail_at'] is not None:
                        ctx.violate('callback-error-lost', 'the exception of a completion callback did not reach the caller')
                    err = None
                except BaseException as e:
                    if cb.raised is not None and cb.raised in (e, e.__cause__, e.__context__):
                        err = 'injected'
                    elif isinstance(e, Exception):
                        ctx.violate('unexpected-exception', f'execute raised {exc_text(e)}')
                        return
                    else:
                        raise
                cb.closed = True
                if not sim.drain():
                    ctx.violate('threads-left', 'worker threads never end after execute: ' + sim.where())
                with sim.untraced():
                    if err is None:
                        compare_rows(ctx, cb.calls, want, 'callback')
                        compare_rows(ctx, rows_of(res), cb.calls, 'callback against row')
                    else:
                        names = [w['file'] for w in want]
                        for c in cb.calls:
                            if c['file'] in names:
                                names.remove(c['file'])
                            else:
                                ctx.violate('row-unexpected', f'callback for {c["file"]} too often')
                        if len(cb.calls) != case['fail_at'] + 1:
                            ctx.violate('callback-late', f'{len(cb.calls)} callbacks were made although callback '
                                                         f'{case["fail_at"] + 1} raised')
        ctx.probe('parallel run' if case['parallel'] else 'sequential run')
        ctx.nontrivial = len(want) >= 2 and (ctx.sim.nswitch > 0 or not case['parallel'])
        self.finish_key(ctx, case, case['fail_at'])


class B03(BatchBase):
    """Calculation errors stay in their own cell."""
    RULE = ('Batches in which calculations fail with CalculationError for a seeded subset of (file, parameter) pairs '
            '(failing fits, failing parameter methods, failing user functions); non-trivial: at least one cell failed and '
            'at least one did not.')
    MUST_PROBE = ['failed cell', 'failed two-valued cell', 'failed user parameter', 'error reached caller']

    def gen(self, rng, tier):
        case = self.base_case(rng, nfiles=(2, 6), nops=(0, 2), nparams=(1, 4), heavy=0.3)
        case['ignore'] = rng.random() < 0.8
        inj = []
        for _ in range(rng.randint(1, 3)):
            n = rng.choice(['Sa', 'Sq', 'Smc', 'Vmc', 'depth', 'Sk', 'Sdr', 'period', 'Sal', 'aspect_ratio', 'Ssk'])
            inj.append(['param', n, rng.choice([1, 2, 2, 3])])
            nm, a, k = gen.gen_param(rng, names=[n])
            if not any(s[1] == n and s[4] is None for s in case['steps']):
                case['steps'].append(['param', nm, a, k, None])
        if rng.random() < 0.4:
            inj.append(['fit', None, rng.choice([2, 4])])
            if not any(s[1] == 'depth' for s in case['steps']):
                case['steps'].append(['param', 'depth', [], {'nprofiles': 4}, rng.choice([None, 'tiefe'])])
        if rng.random() < 0.5:
            case['steps'].append(['cparam', rng.choice(['calc_fail', 'calc_fail', 'calc_always']), [], {}, None])
        rng.shuffle(case['steps'])
        case['inject'] = inj
        return case

    def run(self, case, ctx):
        set_cpus(case['cpus'])
        world = World(case, ctx)
        with Inject(case['inject']):
            # drop steps that fail for reasons other than the injected ones
            steps, _ = self.usable_steps(world, with_(case, ignore=True))
            if steps is None:
                return

            def orc():
                return ([oracle_row(world, i, steps, True, case['preserve']) for i in range(len(case['files']))],
                        [oracle_row(world, i, steps, False, case['preserve']) for i in range(len(case['files']))])
            nan_rows, strict = isolated(orc)
            want = [w[1] for w in nan_rows]
            failing = [r for r in strict if r[0] == 'fail']
            with new_sim(case, ctx) as sim:
                b = build_batch(world, steps)
                cb = Callbacks(ctx, sim) if case['callback'] else None
                try:
                    res = b.execute(multiprocessing=case['parallel'], ignore_errors=case['ignore'],
                                    preserve_chaining_order=case['preserve'], on_file_complete=cb)
                    err = None
                except Exception as e:
                    err = e
                if cb:
                    cb.closed = True
                if not sim.drain():
                    ctx.violate('threads-left', 'worker threads never end after execute: ' + sim.where())
                with sim.untraced():
                    if case['ignore'] or not failing:
                        if err is not None:
                            ctx.violate('error-escaped', f'a failed calculation with ignore_errors={case["ignore"]} made '
                                                         f'execute raise {exc_text(err)}')
                        else:
                            got = rows_of(res)
                            compare_rows(ctx, got, want, 'result')
                            if cb:
                                compare_rows(ctx, cb.calls, want, 'callback')
                            for w in want:
                                for k, v in w.items():
                                    if isinstance(v, float) and v != v:
                                        ctx.fault('calculation failed')
                                        ctx.probe('failed cell')
                                        if k.endswith(('_mean', '_std')):
                                            ctx.probe('failed two-valued cell')
                                        if k == 'sometimes':
                                            ctx.probe('failed user parameter')
                    else:
                        ctx.fault('calculation failed', len(failing))
                        if err is None:
                            ctx.violate('error-lost', 'a calculation failed with ignore_errors=False but execute returned')
                        elif not isinstance(err, CalculationError):
                            ctx.violate('error-replaced', f'a CalculationError was expected, execute raised {exc_text(err)}')
                        else:
                            ctx.probe('error reached caller')
        ctx.nontrivial = bool(failing) or ctx.probes['failed cell'] > 0
        self.finish_key(ctx, case, len(failing))


class B04(BatchBase):
    """Failures end the run, reach the caller, leave nothing behind."""
    RULE = ('Batches with seeded failures (missing, truncated or unreadable files, I/O errors while opening or reading, '
            'failing user functions and callbacks, invalid operations); non-trivial: a failure was hit while at least one '
            'other file was in the batch.')
    MUST_PROBE = ['missing', 'garbage', 'user operation', 'open error', 'read error', 'healed', 'interrupted',
                  'executed again at once']

    def gen(self, rng, tier):
        case = self.base_case(rng, nfiles=(1, 7), nops=(0, 2), nparams=(1, 3), heavy=0.05, custom=0.2)
        nbad = rng.choice([1, 1, 1, 2, 3])
        for _ in range(nbad):
            i = rng.randrange(len(case['files']))
            f = case['files'][i]
            kind = rng.choice(['missing', 'truncated', 'garbage', 'open', 'read', 'user', 'userparam'])
            if kind in ('open', 'read', 'missing') and f['kind'] != 'path':
                f['kind'] = 'path'
            if kind in ('missing', 'truncated', 'garbage'):
                f['bad'] = kind
            else:
                f['fault'] = kind
        case['callback'] = rng.random() < 0.7
        case['heal'] = rng.random() < 0.6
        case['nowait'] = case['heal'] and rng.random() < 0.5
        if case['nowait']:
            # executed again at once, with streams that the workers of the failed execution may still be reading
            for f in case['files']:
                if f['kind'] == 'path' and not f['alias'] and not f.get('bad') and not f.get('fault') and rng.random() < 0.6:
                    f['kind'] = 'bytes'
        case['exc'] = rng.choice(['own', 'own', 'type', 'key', 'os', 'file', 'zero', 'value', 'linalg', 'stop', 'runtime', 'memory', 'exit',
                                  'interrupt'])
        if case['parallel'] and rng.random() < 0.2:
            case['sigint'] = rng.choice([0, 0, 1, 2, 5, 12])
        if rng.random() < 0.3:
            # a parameter method fails with something other than a calculation error
            n = rng.choice(['Sa', 'Sq', 'Sz', 'Sdr', 'Sk'])
            case['method'] = [n, rng.choice([1, 2, 3])]
            if not any((s[4] or s[1]) == n for s in case['steps']):
                case['steps'].append(['param', n, [], {}, None])
        return case

    def shrink(self, case):
        yield from super().shrink(case)
        if case['heal']:
            yield with_(case, heal=False)
        if 'sigint' in case:
            yield {k: v for k, v in case.items() if k != 'sigint'}
        for i, f in enumerate(case['files']):
            if f.get('bad') or f.get('fault'):
                g = {k: v for k, v in f.items() if k not in ('bad', 'fault')}
                yield with_(case, files=case['files'][:i] + [g] + case['files'][i + 1:])

    def run(self, case, ctx):
        import builtins
        set_cpus(case['cpus'])
        world = World(case, ctx)
        faults = {world.paths[i]: f['fault'] for i, f in enumerate(case['files']) if f.get('fault') in ('open', 'read')}
        userbad = [i for i, f in enumerate(case['files']) if f.get('fault') in ('user', 'userparam')]
        bad_shapes = [world.name(i) for i in userbad]
        state = {'on': True}
        real_open, real_io_open = builtins.open, io.open
        inject = Inject([['param'] + case['method']] if case.get('method') else [], on=lambda: state['on'],
                        exc=EXCS[case.get('exc', 'own')])

        class BadRead(io.BytesIO):
            def __init__(self, b, at):
                super().__init__(b)
                self.at = at

            def read(self, n=-1):
                if self.tell() + (len(self.getvalue()) if n is None or n < 0 else n) > self.at:
                    ctx.fault('read error')
                    raise OSError(5, 'Input/output error')
                return super().read(n)

            def readinto(self, b):
                if self.tell() + len(b) > self.at:
                    ctx.fault('read error')
                    raise OSError(5, 'Input/output error')
                return super().readinto(b)

        def fopen(file, mode='r', *a, **k):
            f = faults.get(str(file)) if state['on'] and isinstance(file, (str, os.PathLike)) else None
            if f == 'open':
                ctx.fault('open error')
                raise OSError(24, 'Too many open files')
            if f == 'read':
                i = world.paths.index(str(file))
                return BadRead(world.blobs[i], len(world.blobs[i]) // 2)
            return real_open(file, mode, *a, **k)

        def current_file(surface):
            return getattr(surface, '_verif_name', None)

        # identify the surface's file inside user code by its content class
        steps = [s for s in case['steps']]
        digests = {}

        def digest_of(i):
            s = world.load(i)
            return arr_digest(s.data)

        def user_op(surface):
            if state['on'] and arr_digest(surface.data) in digests:
                ctx.fault('user operation raises')
                raise EXCS[case.get('exc', 'own')]('user operation failed')

        def user_param(surface):
            if state['on'] and arr_digest(surface.data) in digests:
                ctx.fault('user parameter raises')
                raise EXCS[case.get('exc', 'own')]('user parameter failed')
            return {'userval': 1.0}
        CUSTOM_OPS['fault_op'] = user_op
        CUSTOM_PARAMS['fault_param'] = user_param

        def prep():
            d = {}
            for i in userbad:
                try:
                    d[digest_of(i)] = i
                except Exception:
                    pass
            return d
        digests.update(isolated(prep))
        good = [i for i, f in enumerate(case['files']) if not f.get('bad')]
        sub = with_(case, files=[case['files'][i] for i in good])
        state['on'] = False
        if not good:
            steps = [['param', 'Sz', [], {}, None]]
        else:
            w2 = World.__new__(World)
            w2.__dict__.update(world.__dict__)
            w2.case = sub
            w2.paths = [world.paths[i] for i in good]
            w2.blobs = [world.blobs[i] for i in good]
            steps, _ = self.usable_steps(w2, with_(sub, ignore=True))
            if steps is None:
                return
        if userbad:
            if any(case['files'][i]['fault'] == 'user' for i in userbad):
                steps = [['cop', 'fault_op', [], {}, None]] + steps
            else:
                steps = [['cparam', 'fault_param', [], {}, None]] + steps
        state['on'] = True
        builtins.open = io.open = fopen
        inject.__enter__()
        try:
            def orc():
                return [oracle_row(world, i, steps, case['ignore'], case['preserve'])
                        for i in range(len(case['files']))]
            rows = isolated(orc)
            failing = [r for r in rows if r[0] == 'fail']
            with new_sim(case, ctx) as sim:
                b = build_batch(world, steps)
                cb = Callbacks(ctx, sim) if case['callback'] else None
                err = res = None
                sim.interrupt_in = case.get('sigint')
                try:
                    res = b.execute(multiprocessing=case['parallel'], ignore_errors=case['ignore'],
                                    preserve_chaining_order=case['preserve'], on_file_complete=cb)
                except BaseException as e:
                    err = e
                sim.interrupt_in = None
                if sim.interrupted:
                    ctx.fault('interrupt of the caller')
                    ctx.probe('interrupted')
                    failing = failing + [('fail', 'KeyboardInterrupt', 'the caller was interrupted')]
                if cb:
                    cb.closed = True
                ended = bool(case.get('nowait') and case['heal'] and failing) or sim.drain()
                if not ended:
                    ctx.violate('threads-left', 'worker threads never end after execute: ' + sim.where())
                with sim.untraced():
                    if sim.interrupted and err is not None and type(err) is not KeyboardInterrupt:
                        ctx.violate('failure-replaced', f'execute raised {exc_text(err)} when it was interrupted')
                    self.judge(case, ctx, rows, failing, err, res, cb)
                if case['heal'] and failing and not ctx.violations:
                    with sim.untraced():
                        state['on'] = False
                        world.heal()
                        want = isolated(lambda: [oracle_row(world, i, steps, case['ignore'], case['preserve'])
                                                 for i in range(len(case['files']))])
                    if all(w[0] == 'ok' for w in want):
                        cb2 = Callbacks(ctx, sim)
                        try:
                            res = b.execute(multiprocessing=case['parallel'], ignore_errors=case['ignore'],
                                            preserve_chaining_order=case['preserve'], on_file_complete=cb2)
                        except Exception as e:
                            ctx.violate('not-recovered', f'after the faults stopped execute raised {exc_text(e)}')
                        else:
                            if case.get('nowait'):
                                ctx.probe('executed again at once')
                                if not sim.drain():
                                    ctx.violate('threads-left', 'worker threads never end after execute: ' + sim.where())
                            with sim.untraced():
                                compare_rows(ctx, rows_of(res), [w[1] for w in want], 'after recovery')
                                compare_rows(ctx, cb2.calls, [w[1] for w in want], 'callbacks after recovery')
                            ctx.probe('healed')
        finally:
            inject.__exit__()
            builtins.open, io.open = real_open, real_io_open
        for f in case['files']:
            if f.get('bad') == 'missing':
                ctx.fault('missing')
            elif f.get('bad') == 'garbage':
                ctx.fault('garbage')
            elif f.get('bad') == 'truncated':
                ctx.fault('truncated')
            elif f.get('fault') == 'user':
                ctx.probe('user operation')
        ctx.nontrivial = bool(failing) and len(case['files']) > 1
        self.finish_key(ctx, case, [f.get('bad') or f.get('fault') for f in case['files']])

    def judge(self, case, ctx, rows, failing, err, res, cb):
        ok = [r[1] for r in rows if r[0] == 'ok']
        if not failing:
            if err is not None:
                ctx.violate('unexpected-exception', f'execute raised {exc_text(err)}')
            else:
                compare_rows(ctx, rows_of(res), ok, 'result')
            return
        if err is None:
            ctx.violate('failure-lost', f'{len(failing)} of {len(rows)} files cannot be processed '
                                        f'({failing[0][1]}: {failing[0][2]}) but execute returned normally')
            return
        kinds = {f[1] for f in failing}
        if not case['parallel']:
            first = [r for r in rows if r[0] == 'fail'][0]
            kinds = {first[1]}
        if 'StopIteration' in kinds:
            # stands for the end of something when it leaves an iterator: may arrive as the RuntimeError of generators
            kinds.add('RuntimeError')
        if type(err).__name__ not in kinds:
            ctx.violate('failure-replaced', f'execute raised {exc_text(err)}; the failing files raise {sorted(kinds)}')
        if cb:
            names = [w['file'] for w in ok]
            pool = list(ok)
            for c in cb.calls:
                m = [w for w in pool if w['file'] == c['file'] and row_problem(c, w) is None]
                if m:
                    pool.remove(m[0])
                elif c['file'] in names:
                    ctx.violate('row-wrong', f'callback for {c["file"]} has wrong values or came twice')
                else:
                    ctx.violate('row-unexpected', f'callback for {c["file"]}, which cannot be processed')
            if not case['parallel']:
                n = [r[0] for r in rows].index('fail')
                if [c['file'] for c in cb.calls] != [r[1]['file'] for r in rows[:n]]:
                    ctx.violate('row-missing', 'a sequential run did not report exactly the files before the failing one')


class _At:
    """Stands for a run's context where only the directory matters."""

    def __init__(self, tmp):
        self.tmp = tmp


class B05(BatchBase):
    """Executions are isolated from each other and leave their inputs alone."""
    RULE = ('Several executions of batches over shared files, parameter objects and argument containers, concurrently '
            'from several user threads and repeated one after the other; non-trivial: at least two executions whose '
            'threads were interleaved, or a repeated execution with two files.')
    MUST_PROBE = ['concurrent executions', 'same batch twice', 'stream input', 'shared batch object',
                  'files replaced between executions', 'execution that must fail']

    def gen(self, rng, tier):
        case = self.base_case(rng, nfiles=(1, 5), nops=(0, 3), nparams=(1, 4), heavy=0.15)
        case['threads'] = rng.choice([1, 2, 2, 3])
        case['mode'] = rng.choice(['shared', 'separate', 'separate'])
        case['repeat'] = rng.choice([1, 1, 2])
        case['grow'] = rng.random() < 0.2
        case['pattern'] = rng.random() < 0.2
        case['rewrite'] = rng.choice(['new', 'same-time']) if rng.random() < 0.3 else None
        case['flags'] = None
        if rng.random() < 0.35:
            case['flags'] = [[rng.random() < 0.5, rng.random() < 0.6, rng.random() < 0.8] for _ in range(case['threads'])]
            if rng.random() < 0.5:
                case['mode'] = 'shared'
        if rng.random() < (0.7 if case['flags'] else 0.15):
            case['steps'].append(['cparam', 'calc_fail', [], {}, None])
        if case['threads'] > 1:
            # one stream cannot be read by two executions at once, by construction of streams
            for f in case['files']:
                if case['mode'] == 'shared':
                    f['kind'] = 'path'
        case['cpus'] = min(case['cpus'], 4)
        return case

    def shrink(self, case):
        yield from super().shrink(case)
        if case['threads'] > 1:
            yield with_(case, threads=case['threads'] - 1)
        if case['repeat'] > 1:
            yield with_(case, repeat=1)
        if case['grow']:
            yield with_(case, grow=False)
        if case.get('rewrite'):
            yield with_(case, rewrite=None)
        if case.get('flags'):
            yield with_(case, flags=None)

    def other_flags(self, world, case, steps):
        """Rows of the executions that use other options than the case. None in place of a list: it raises."""
        def compute():
            out = []
            for ign, pres, _ in case['flags']:
                rows = [oracle_row(world, i, steps, ign, pres) for i in range(len(case['files']))]
                bad = [r[1] for r in rows if r[0] == 'fail']
                out.append([r[1] for r in rows] if not bad else sorted(set(bad)))
            return out
        return isolated(compute)

    def rewritten(self, case, ctx, steps):
        """Another set of files of the same names and sizes, and its rows."""
        d = os.path.join(ctx.tmp, 'other')
        os.makedirs(d, exist_ok=True)
        files = [dict(f, spec=dict(f['spec'], seed=f['spec']['seed'] ^ 0x5a5a)) if f['kind'] == 'path' else f
                 for f in case['files']]
        first = {}
        for i, f in enumerate(files):       # the same path twice: one file
            files[i] = first.setdefault((f['name'], f['alias'], f['fmt']), f)
        world = World(with_(case, files=files), _At(d))
        rows = isolated(lambda: [oracle_row(world, i, steps, case['ignore'], case['preserve']) for i in range(len(files))])
        if any(r[0] == 'fail' for r in rows):
            return None, None
        return world, [r[1] for r in rows]

    def run(self, case, ctx):
        set_cpus(case['cpus'])
        world = World(case, ctx)
        steps, want = self.usable_steps(world, case)
        if steps is None:
            return
        want = [w[1] for w in want]
        flags = case.get('flags')
        wants = self.other_flags(world, case, steps) if flags else None
        other, rewant = self.rewritten(case, ctx, steps) if case.get('rewrite') else (None, None)
        blobs = {p: open(p, 'rb').read() for p in world.paths if os.path.exists(p)}
        shared_params = {}
        out = {}
        with new_sim(case, ctx) as sim:
            batches = []
            n = case['threads']
            args = [list(map(list, [s[2] for s in steps]))]
            first = None
            for t in range(n):
                if case['mode'] == 'shared' and first is not None:
                    batches.append(first)
                    continue
                b = Batch(world.make_inputs())
                for st in steps:
                    if st[0] == 'rp' and _Parameter is not None:
                        key = json.dumps(st)
                        if key not in shared_params:
                            _, aa, kk = gen.call_args([st[1], st[2], st[3]])
                            shared_params[key] = _Parameter(st[1], args=tuple(aa), kwargs=kk, custom_name=st[4])
                        b.roughness_parameters([shared_params[key]])
                    else:
                        add_steps(b, [st])
                if case.get('pattern'):
                    b.extract_from_filename('f<idx|int>_<rest|str>')
                first = first or b
                batches.append(b)
            positions = []
            for b in batches:
                for fi in b._files if hasattr(b, '_files') else []:
                    if isinstance(fi, FileInput):
                        positions.append((fi, fi.data.tell()))
            streams = list(world.streams.values())

            def work(t):
                for r in range(case['repeat']):
                    cb = Callbacks(ctx, sim)
                    ign, pres, par = flags[t] if flags else (case['ignore'], case['preserve'], case['parallel'])
                    try:
                        res = batches[t].execute(multiprocessing=par, ignore_errors=ign,
                                                 preserve_chaining_order=pres, on_file_complete=cb)
                        out[(t, r)] = ('ok', res, cb)
                    except Exception as e:
                        out[(t, r)] = ('fail', e, cb)
            rows = rows_of
            if case.get('pattern'):
                rows = self.patterned
                full = [dict(w, idx=int(w['file'][1:].split('_')[0])) for w in want]
            else:
                full = want
            if n == 1:
                work(0)
            else:
                ths = [threading.Thread(target=work, args=(t,)) for t in range(n)]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join()
            with sim.untraced():
                for (t, r), v in sorted(out.items()):
                    w1 = wants[t] if flags else want
                    raises = bool(w1) and isinstance(w1[0], str)
                    if raises:
                        ctx.probe('execution that must fail')
                        if v[0] != 'fail':
                            ctx.violate('failure-lost', f'execution {r} of user thread {t} with the options {flags[t]} returned '
                                                        f'normally, alone it fails with {w1}')
                        elif type(v[1]).__name__ not in w1:
                            ctx.violate('unexpected-exception',
                                        f'execution {r} of user thread {t} raised {exc_text(v[1])} instead of {w1}')
                        continue
                    if v[0] == 'fail':
                        ctx.violate('unexpected-exception', f'execution {r} of user thread {t} raised {exc_text(v[1])}')
                    else:
                        f1 = [dict(w, idx=int(w['file'][1:].split('_')[0])) for w in w1] if case.get('pattern') else w1
                        compare_rows(ctx, rows(v[1]), f1, f'execution {r} of user thread {t}')
                        compare_rows(ctx, v[2].calls, w1, f'callbacks of execution {r} of user thread {t}')
                if len(out) != n * case['repeat']:
                    ctx.violate('execution-lost', f'{len(out)} of {n * case["repeat"]} executions ended')
                for fi, pos in positions:
                    if fi.data.closed:
                        ctx.violate('stream-closed', f'the stream of {fi.name} was closed')
                    elif fi.data.tell() != pos:
                        ctx.violate('stream-moved', f'the stream of {fi.name} is at {fi.data.tell()}, was at {pos}')
            if not sim.drain():
                ctx.violate('threads-left', 'worker threads never end after execute: ' + sim.where())
            # once more, alone, with one more step if asked for: the batch object is unharmed and extensible
            again = batches[0]
            w = full
            if other is not None:
                with sim.untraced():
                    for a, p in zip(other.paths, world.paths):
                        if p in blobs:
                            at = os.stat(p)
                            shutil.copyfile(a, p)
                            blobs[p] = open(p, 'rb').read()
                            if case['rewrite'] == 'same-time':
                                os.utime(p, ns=(at.st_atime_ns, at.st_mtime_ns))
                w = rewant
                if case.get('pattern'):
                    w = [dict(x, idx=int(x['file'][1:].split('_')[0])) for x in w]
                ctx.probe('files replaced between executions')
            if case['grow']:
                again.custom_parameter(CUSTOM_GROW)
                w = [dict(x, grown=1.0) for x in w]
            try:
                res = again.execute(multiprocessing=case['parallel'], ignore_errors=case['ignore'],
                                    preserve_chaining_order=case['preserve'])
            except Exception as e:
                ctx.violate('unexpected-exception', f'the repeated execution raised {exc_text(e)}')
            else:
                with sim.untraced():
                    compare_rows(ctx, rows(res), w, 'repeated execution')
        for p, b in blobs.items():
            if open(p, 'rb').read() != b:
                ctx.violate('input-changed', f'the input file {os.path.basename(p)} was modified')
        ctx.probe('same batch twice')
        if n > 1:
            ctx.probe('concurrent executions')
            if case['mode'] == 'shared':
                ctx.probe('shared batch object')
        if any(f['kind'] != 'path' for f in case['files']):
            ctx.probe('stream input')
        ctx.nontrivial = (n > 1 and ctx.sim.nswitch > 1) or len(want) > 1
        self.finish_key(ctx, case, [n, case['mode'], case['repeat']])


def patterned_rows(res):
    out = rows_of(res)
    for g in out:
        g.pop('rest', None)
    return out


B05.patterned = staticmethod(patterned_rows)


def CUSTOM_GROW(surface):
    return {'grown': 1.0}
