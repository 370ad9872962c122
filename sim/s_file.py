"""
Files, streams and formats under storage faults, crashes, corruption and concurrency.
"""
import errno
import io
import math
import os
import struct
import random
import sys
import threading
import warnings
from pathlib import Path

import numpy as np

import simsched
import gen
import formats
import faultalloc
from disk import Disk, Plan, FRaw, FBytes, faults, file_size_limit
from util import new_sim, isolated, val_equal, arr_equal, arr_digest, exc_text, shrink_list, with_, short_hash
from s_state import snap, snap_equal, snap_text

from surfalize import Surface
from surfalize.image import Image

REAL = ['surfalize.file (dispatch, all readers and writers), surfalize.surface.Surface.load/save',
        'io.BufferedReader/BufferedWriter/BufferedRandom/BytesIO, zipfile, zlib, lzma, numpy, the file system below']
STUB = ['the raw layer of files and in-memory streams (FileIO/BytesIO subclass following a fault plan)',
        "numpy's data allocator when an allocation failure is injected", 'thread scheduler and locks (seeded simulator)']
BUFFER = 8192


# ------------------------------------------------------------------------------------------------------------- surfaces
def gen_save_surface(rng):
    spec = gen.surface_spec(rng, kinds=gen.KINDS + ['const', 'zero'], nan_p=0.3, lo=1, hi=rng.choice([6, 20, 20, 45, 80]) + 1)
    if rng.random() < 0.25:
        spec['offset'] = rng.choice([1000.0, -250.5, 12345.678, 0.125])
    if rng.random() < 0.2:
        spec['scale'] = rng.choice([1e-4, 1e-2, 1e3, 1e5])
    if spec['nan'] and rng.random() < 0.05:
        spec['nan'] = 1.0
    sx, sy = gen.step_size(rng)
    if rng.random() < 0.3:
        sx, sy = rng.uniform(0.001, 3), rng.uniform(0.001, 3)
    layers = []
    for i in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
        layers.append([rng.choice(['RGB', 'Grayscale', 'Intensity', 'Höhe µm', 'a b', '层', 'topography', 'x' * 300]) +
                       (str(i) if i else ''),
                       rng.choice(['u1', 'u1', '<u2', '<f8', '<f4', '<i2', '<i4', '>u2', '>f8', '?']), rng.choice([0, 0, 3, 3, 4]),
                       rng.randrange(1, 30), rng.randrange(1, 30), rng.getrandbits(16), rng.choice(['C', 'C', 'F', 'view', 'rev', 'T'])])
    return {'spec': spec, 'sx': sx, 'sy': sy, 'dtype': rng.choice(['f8', 'f8', 'f8', 'f8', 'f4', 'i4', '>f8', 'i2', 'u2']),
            'order': rng.choice(['C', 'C', 'F', 'view', 'rev']), 'layers': layers, 'stamp': rng.random() < 0.25}


def arrange(d, order='C'):
    """The same values in memory in another way."""
    if order == 'F':
        return np.asfortranarray(d)
    if order == 'view':
        big = np.zeros((d.shape[0] * 2, d.shape[1] * 3) + d.shape[2:], dtype=d.dtype)
        big[::2, ::3] = d
        return big[::2, ::3]
    if order == 'rev':
        return np.ascontiguousarray(d[::-1, ::-1])[::-1, ::-1]
    if order == 'T':
        return np.ascontiguousarray(np.swapaxes(d, 0, 1)).swapaxes(0, 1)
    return d


def make_save_surface(o):
    import datetime
    whole = np.dtype(o['dtype']).kind in 'iu'
    d = gen.make_data(dict(o['spec'], nan=0.0 if whole else o['spec']['nan']))
    if o['spec']['nan'] >= 1.0 and not whole:
        d = np.full_like(d, np.nan)
    if whole:
        lim = {'i4': (-1e8, 1e8), 'i2': (-32768, 32767), 'u2': (0, 65535)}[o['dtype']]
        d = np.round(np.clip(d * (1 if o['dtype'] == 'i4' else 5000), *lim))
    d = arrange(d.astype(o['dtype']), o['order'])
    layers = {}
    for name, dt, ch, h, w, seed, *order in o['layers']:
        r = np.random.RandomState(seed)
        a = r.randint(0, 2 if dt == '?' else 120, size=(h, w) if ch == 0 else (h, w, ch)).astype(dt)
        layers[name] = Image(arrange(a, *order))
    meta = {'instrument': 'x', 'n': 3}
    if o['stamp']:
        meta['timestamp'] = datetime.datetime(2021, 2, 3, 4, 5)
    return Surface(d, o['sx'], o['sy'], metadata=meta, image_layers=layers)


def gen_writer(rng):
    """-> [suffix, kwargs]"""
    f = rng.choice(['.sur', '.sur', '.sdf', '.sdf', '.sflz', '.sflz', '.sflz', '.al3d', '.tmd', '.tmd'])
    if f == '.sur':
        k = rng.choice([{}, {}, {'compressed': True}, {'comment': 'hello'}, {'compressed': True, 'comment': 'µ' * 20},
                        {'comment': 'y' * 9000}])
    elif f == '.sdf':
        k = rng.choice([{}, {'binary': True}, {'binary': False}])
    elif f == '.al3d':
        k = {}
    elif f == '.tmd':
        k = rng.choice([{}, {}, {'comment': ''}, {'comment': 'x' * 21}, {'comment': 'a µ-Stufe'}, {'comment': 'x' + 'µ' * 10}])
    else:
        k = {}
        if rng.random() < 0.6:
            k['compression'] = rng.choice(['none', 'none', 'zlib', 'lzma'])
        if rng.random() < 0.6:
            k['dtype'] = rng.choice(['<u4', '<u2', '|u1', '<i4', '<i2', '|i1', '<f8', '<f4'])
        if rng.random() < 0.25:
            k['save_image_layers'] = rng.choice([True, False])
        if rng.random() < 0.2:
            k['write_metadata'] = False
    return [f, k]


def overlong(w):
    """The field of the format does not hold the comment: such a save may be refused, but not acknowledged and lost."""
    return w[0] == '.tmd' and len(w[1].get('comment', '').encode()) > 21


def save_tolerance(w, d):
    """(absolute tolerance of heights, relative tolerance of spacing)"""
    f, k = w
    fin = d[np.isfinite(d)]
    if fin.size == 0:
        return 0.0, 1e-6
    rng = float(fin.max() - fin.min())
    mx = float(np.abs(fin).max())
    if f == '.sur':
        return 3e-7 * rng + 2e-7 * mx + 1e-12, 1e-6
    if f == '.sdf':
        if k.get('binary', True):
            return 1e-13 * mx, 1e-12
        return 2e-10 * mx, 1e-12
    if f == '.al3d':
        return 4e-7 * mx, 1e-12
    if f == '.tmd':
        return 1e-7 * mx, 1e-6
    dt = np.dtype(k.get('dtype', '<u4'))
    if dt.kind == 'f':
        return (1e-15 if dt.itemsize == 8 else 1e-7) * mx, 1e-12
    return 1.01 * rng / (2 ** (8 * dt.itemsize) - 1) + 1e-12 * mx, 1e-12


def readback_problem(s, w, data, sx, sy, layers, with_layers):
    """Compares a loaded surface with what was saved. -> None or text"""
    d = np.asarray(data, dtype='f8')
    tol, rel = save_tolerance(w, d)
    if s.data.shape != d.shape:
        return f'shape {s.data.shape} instead of {d.shape}'
    if not np.array_equal(np.isnan(s.data), np.isnan(d)):
        return f'{int((np.isnan(s.data) != np.isnan(d)).sum())} points differ in being measured'
    if d.size and np.isfinite(d).any():
        e = np.nanmax(np.abs(np.asarray(s.data, 'f8') - d))
        if not e <= tol:
            return f'heights differ by up to {e:.3g} (tolerance {tol:.3g})'
    for a, b, n in ((s.step_x, sx, 'x'), (s.step_y, sy, 'y')):
        if not abs(a - b) <= rel * abs(b):
            return f'step {n} is {a!r} instead of {b!r}'
    if with_layers and w[0] == '.sflz':
        want = {} if w[1].get('save_image_layers') is False else layers
        if set(s.image_layers) != set(want):
            return f'layers {sorted(s.image_layers)} instead of {sorted(want)}'
        for n, im in want.items():
            a, b = s.image_layers[n].data, im.data
            if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b):
                return f'layer {n!r} differs'
    return None


# -------------------------------------------------------------------------------------------------------------- targets
def gen_target(rng, i):
    k = rng.choice(['path', 'path', 'Path', 'path', 'bytesio', 'bytesio', 'buffered', 'random', 'raw'])
    t = {'kind': k, 'at': 0, 'name': f't{rng.randrange(0, 2)}', 'old': rng.choice([0, 0, 500, 30000])}
    if k in ('path', 'Path'):
        t['case'] = rng.choice(['lower', 'lower', 'upper', 'title', 'none', 'override', 'formatupper'])
    else:
        t['at'] = rng.choice([0, 0, 1, 37, 8191, 20000])
        t['formatcase'] = rng.choice(['lower', 'lower', 'upper'])
    return t


def gen_wfault(rng, big, target):
    r = rng.random()
    n = rng.choice([0, 1, 8, rng.randrange(0, 700), rng.randrange(0, big), rng.randrange(0, big)])
    if target == 'raw' and rng.random() < 0.25:
        return {'kind': 'blocked', 'at': n, 'value': rng.choice([None, 0])}
    if r < 0.3:
        return {'kind': 'enospc', 'at': n}
    if r < 0.45:
        f = {'kind': 'eio-write', 'call': rng.choice([0, 0, 1, 2, 5, 20]), 'times': rng.choice([1, 1, 1 << 30])}
        if rng.random() < 0.25:
            f.update(interrupt=True, times=1)
        return f
    if r < 0.6:
        return {'kind': 'short-write', 'seed': rng.getrandbits(16)}
    if r < 0.7:
        return {'kind': 'close', 'lost': rng.choice([0, 1, 100])}
    if r < 0.73:
        return {'kind': 'open', 'times': 1, 'errno': rng.choice(['EMFILE', 'EACCES', 'EROFS', 'EIO', 'ENOSPC', 'EPERM'])}
    if r < 0.9:
        return {'kind': 'rlimit', 'at': n}
    return {'kind': 'alloc', 'n': rng.choice([0, 1, 2, 3, 5, 8, 13, 30]), 'min': rng.choice([0, 64, 400]),
            'sticky': rng.random() < 0.3}


class Save:
    """One save call onto a target, with the fault in force."""

    def __init__(self, ctx, disk, surface, act):
        self.ctx, self.disk, self.s, self.act = ctx, disk, surface, act
        self.w = act['w']
        self.t = act['t']
        f = act.get('fault') or {}
        self.fault = f
        plan_kinds = ('enospc', 'eio-write', 'short-write', 'close', 'open', 'blocked')
        spec = dict(f) if f.get('kind') in plan_kinds else {}
        if spec.get('kind') in ('enospc', 'blocked'):
            spec['at'] += self.t['at']
        self.plan = Plan(ctx, spec)
        self.path = None
        self.bytes = None
        self.fired = False
        self.moved = None
        self.closed_by_save = False

    def prepare(self):
        t, suffix = self.t, self.w[0]
        fmt = None
        if t['kind'] in ('path', 'Path'):
            c = t['case']
            name = t['name'] + {'lower': suffix, 'upper': suffix.upper(), 'title': '.' + suffix[1:].title(), 'none': '',
                                'override': {'.sur': '.sdf', '.sdf': '.sflz', '.sflz': '.al3d', '.al3d': '.tmd', '.tmd': '.sur'}[suffix],
                                'formatupper': ''}[c]
            if c in ('none', 'override'):
                fmt = suffix
            elif c == 'formatupper':
                fmt = suffix.upper()
            self.path = os.path.join(self.ctx.tmp, 'd', name)
            self.loadfmt = fmt
            self.target = Path(self.path) if t['kind'] == 'Path' else self.path
            if t['old']:
                with self.disk_off():
                    with open(self.path, 'wb') as fh:
                        fh.write(b'\xa5' * t['old'])
        else:
            fmt = suffix.upper() if t['formatcase'] == 'upper' else suffix
            self.loadfmt = suffix
            head = bytes((i * 31 + 7) & 255 for i in range(t['at']))
            self.head = head
            if t['kind'] == 'bytesio':
                self.target = FBytes(head, self.plan)
                self.target.seek(t['at'])
            else:
                self.path = os.path.join(self.ctx.tmp, 'd', t['name'] + '.bin')
                with self.disk_off():
                    with open(self.path, 'wb') as fh:
                        fh.write(head)
                raw = FRaw(self.path, 'r+', self.plan)
                raw.seek(t['at'])
                if t['kind'] == 'raw':
                    self.target = raw
                elif t['kind'] == 'random':
                    self.target = io.BufferedRandom(raw, BUFFER)
                else:
                    self.target = io.BufferedWriter(raw, BUFFER)
        self.fmt = fmt

    def disk_off(self):
        return _DiskOff(self.disk)

    def run(self):
        """-> None when acknowledged, else the exception"""
        self.prepare()
        k = self.fault.get('kind')
        err = None
        fl = None
        try:
            with faults(self.disk, self.plan):
                if k == 'rlimit':
                    with file_size_limit(self.fault['at'] + self.t['at']):
                        try:
                            self.call()
                            self.user_close()
                        finally:
                            self.release()
                elif k == 'alloc':
                    try:
                        with faultalloc.failing(self.fault['n'], sticky=self.fault['sticky'], min_size=self.fault['min']) as fl:
                            self.call()
                        self.user_close()
                    finally:
                        self.release()
                else:
                    try:
                        self.call()
                        self.user_close()
                    finally:
                        self.release()
        except (Exception, KeyboardInterrupt) as e:
            err = e
        self.fired = bool(self.plan.fired) or bool(fl is not None and fl.failed) or \
            (k == 'rlimit' and isinstance(err, OSError) and err.errno == errno.EFBIG)
        if fl is not None and fl.failed:
            self.ctx.fault('allocation fails', fl.failed)
        if k == 'rlimit' and self.fired:
            self.ctx.fault('file size limit')
        return err

    def call(self):
        kw = dict(self.w[1])
        if self.fmt is not None:
            kw['format'] = self.fmt
        try:
            self.s.save(self.target, **kw)
        finally:
            if not isinstance(self.target, (str, Path)):
                try:
                    if self.target.closed:
                        self.closed_by_save = True
                    elif self.target.tell() != self.t['at']:
                        self.moved = self.target.tell()
                except Exception:
                    pass

    def user_close(self):
        """The caller's part for a stream: whoever owns the buffer flushes it and learns about a failure."""
        if self.t['kind'] == 'bytesio':
            self.bytes = self.target.getvalue()
        elif self.t['kind'] not in ('path', 'Path'):
            if self.t['kind'] != 'raw':
                self.target.flush()
            self.target.close()

    def release(self):
        if self.t['kind'] in ('buffered', 'random', 'raw'):
            self.plan.heal()
            try:
                self.target.close()
            except Exception:
                pass

    def check(self, data, sx, sy, layers):
        """-> problem with what was written, or None"""
        if self.t['at'] and self.t['kind'] not in ('path', 'Path'):
            b = self.bytes if self.bytes is not None else open(self.path, 'rb').read()
            if b[:self.t['at']] != self.head:
                return 'bytes before the position of the stream were overwritten'
        out = None
        for lay in (False, True):
            try:
                if self.t['kind'] in ('path', 'Path'):
                    s = Surface.load(self.path, format=self.loadfmt, read_image_layers=lay)
                elif self.bytes is not None:
                    f = io.BytesIO(self.bytes)
                    f.seek(self.t['at'])
                    s = Surface.load(f, format=self.loadfmt, read_image_layers=lay)
                else:
                    with open(self.path, 'rb') as f:
                        f.seek(self.t['at'])
                        s = Surface.load(f, format=self.loadfmt, read_image_layers=lay)
            except Exception as e:
                return f'cannot be loaded: {exc_text(e)}'
            out = readback_problem(s, self.w, data, sx, sy, layers, lay)
            if out:
                return out
        return None


class _DiskOff:
    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        self.plan, self.disk.plan = self.disk.plan, None

    def __exit__(self, *a):
        self.disk.plan = self.plan
        return False


class FileBase:
    REAL = REAL
    STUB = STUB
    LEVEL = 'exploration'
    MUST_PROBE = []
    ASSUMPTIONS = ['the file system below the faulty layer, zlib, lzma, zipfile and numpy behave as documented']

    def shrink(self, case):
        return iter(())


# ==================================================================================================================== S01
class S01(FileBase):
    RULE = 'A run counts as non-trivial when a fault was injected into a save or several targets or options were combined.'
    MUST_PROBE = ['acked', 'acked-despite-fault', 'refused', 'healed', 'disk full', 'write I/O error', 'short write',
                  'file size limit', 'close reports lost data', 'allocation fails', 'stream-offset', 'overwrote-longer']
    ASSUMPTIONS = FileBase.ASSUMPTIONS + [
        'a save into a stream that the caller buffers counts as acknowledged once the caller flushed and closed it',
        'heights are finite or NaN; sflz with 64 bit integer samples is not used']

    def gen(self, rng, tier):
        o = gen_save_surface(rng)
        acts = []
        big = o['spec']['ny'] * o['spec']['nx'] * 8 + 700
        for i in range(rng.choice([1, 1, 2, 3])):
            a = {'w': gen_writer(rng), 't': gen_target(rng, i)}
            if a['w'][0] == '.tmd' and rng.random() < 0.15:
                a['w'][1] = {'comment': rng.choice(['Höhe ' + 'µ' * 12, 'x' * 22, 'ß' * 11, '層' * 8])}
            if rng.random() < 0.7:
                a['fault'] = gen_wfault(rng, big, a['t']['kind'])
            acts.append(a)
        return {'obj': o, 'acts': acts}

    def shrink(self, case):
        for acts in shrink_list(case['acts'], 1):
            yield with_(case, acts=acts)
        o = case['obj']
        for alt in ({'layers': []}, {'dtype': 'f8'}, {'order': 'C'}, {'stamp': False}):
            if any(o[k] != v for k, v in alt.items()):
                yield with_(case, obj=dict(o, **alt))
        s = o['spec']
        for alt in ({'ny': 3, 'nx': 3}, {'ny': max(1, s['ny'] // 2)}, {'nx': max(1, s['nx'] // 2)}, {'nan': 0.0},
                    {'kind': 'noise'}, {'offset': 0.0}, {'scale': None}):
            if any(s.get(k) != v for k, v in alt.items()):
                yield with_(case, obj=dict(o, spec=dict(s, **alt)))
        for i, a in enumerate(case['acts']):
            rest = lambda x: case['acts'][:i] + [x] + case['acts'][i + 1:]
            if a.get('fault'):
                yield with_(case, acts=rest({k: v for k, v in a.items() if k != 'fault'}))
            if a['w'][1]:
                yield with_(case, acts=rest(dict(a, w=[a['w'][0], {}])))
            if a['t']['kind'] != 'path' or a['t']['old'] or a['t'].get('case') != 'lower':
                yield with_(case, acts=rest(dict(a, t={'kind': 'path', 'at': 0, 'name': a['t']['name'], 'old': 0,
                                                       'case': 'lower'})))

    def run(self, case, ctx):
        if any((a.get('fault') or {}).get('kind') == 'alloc' for a in case['acts']):
            faultalloc.install()
        os.makedirs(os.path.join(ctx.tmp, 'd'))
        s = make_save_surface(case['obj'])
        data, sx, sy = np.array(s.data, copy=True), s.step_x, s.step_y
        layers = {k: Image(v.data.copy()) for k, v in s.image_layers.items()}
        before = snap(s)
        good = {}
        with Disk(os.path.join(ctx.tmp, 'd')) as disk:
            for n, a in enumerate(case['acts']):
                for heal in (False, True):
                    sv = Save(ctx, disk, s, a if not heal else {k: v for k, v in a.items() if k != 'fault'})
                    err = sv.run()
                    where = f'save {n} {a["w"]} to {a["t"]} with {sv.fault}'
                    if err is None:
                        ctx.probe('acked')
                        if sv.path:
                            good[sv.path] = (sv, where)
                        if sv.fired:
                            ctx.probe('acked-despite-fault')
                        p = sv.check(data, sx, sy, layers)
                        if p:
                            ctx.violate('acknowledged-but-lost' if sv.fault else 'round-trip', f'{where}: {p}')
                    else:
                        if sv.path:
                            good.pop(sv.path, None)
                        if overlong(a['w']) and isinstance(err, ValueError):
                            ctx.probe('comment-refused')
                        elif not sv.fired:
                            ctx.violate('save-refused', f'{where}: raised {exc_text(err)} without a fault')
                            if not heal:
                                break
                        else:
                            ctx.probe('refused')
                    ctx.event(n, heal, type(err).__name__, sv.fired)
                    if sv.t['at']:
                        ctx.probe('stream-offset')
                    if sv.t['old'] >= 30000:
                        ctx.probe('overwrote-longer')
                    if not snap_equal(before, snap(s)):
                        ctx.violate('surface-changed', f'{where}: changed the surface: {snap_text(before, snap(s))}')
                        before = snap(s)
                    if heal:
                        ctx.probe('healed')
                    if not a.get('fault'):
                        break
            for sv, where in good.values():
                p = sv.check(data, sx, sy, layers)
                if p:
                    ctx.violate('acknowledged-but-lost', f'{where}: at the end: {p}')
        ctx.nontrivial = bool(ctx.faults) or len(case['acts']) > 1 or bool(case['acts'][0]['w'][1])
        ctx.key = [short_hash(case['obj']), short_hash(case['acts'])]
        ctx.sample = {'saves': len(case['acts'])}


# -------------------------------------------------------------------------------------------------------- readable files
def gen_rfile(rng, fmts=None, nan=True, lo=2, hi=26):
    f = rng.choice(fmts or formats.FORMATS)
    spec = gen.surface_spec(rng, nan_p=0.3 if nan and f in formats.NAN_FORMATS else 0.0, lo=lo,
                            hi=rng.choice([8, hi, hi, 60]))
    if f in ('xyz',):
        spec['ny'], spec['nx'] = max(2, min(20, spec['ny'])), max(2, min(20, spec['nx']))
    if f == 'fits' and rng.random() < 0.2:
        # data that end on a block boundary
        spec['ny'], spec['nx'] = rng.choice([(18, 20), (36, 20), (24, 30), (15, 24), (48, 60)])
    sx, sy = gen.step_size(rng)
    return {'fmt': f, 'spec': spec, 'sx': sx, 'sy': sy, 'seed': rng.getrandbits(16), 'rich': rng.random() < 0.7}


class RFile:
    def __init__(self, c):
        self.c = c
        self.fmt = c['fmt']
        self.suffix = formats.SUFFIX[self.fmt]
        data = gen.make_data(c['spec'])
        self.bytes, self.data, self.sx, self.sy, self.layers = formats.encode(self.fmt, data, c['sx'], c['sy'],
                                                                              {'seed': c['seed'], 'gray': c['seed'] % 5 == 0,
                                                                               'stored': c['seed'] % 2, 'rich': c.get('rich'),
                                                                               'dup': c.get('dup'), 'dst': c.get('dst')})

    def problem(self, s, layers=False):
        e = self.data
        if s.data.shape != e.shape:
            return f'shape {s.data.shape} instead of {e.shape}'
        if not np.array_equal(np.isnan(s.data), np.isnan(e)):
            return f'{int((np.isnan(s.data) != np.isnan(e)).sum())} points differ in being measured'
        if not np.allclose(s.data, e, rtol=1e-5, atol=1e-7 + 2e-6 * float(np.nanmax(np.abs(e), initial=0)), equal_nan=True):
            return f'heights differ by up to {float(np.nanmax(np.abs(s.data - e)))!r}'
        if not (np.isclose(s.step_x, self.sx, rtol=1e-5, atol=0) and np.isclose(s.step_y, self.sy, rtol=1e-5, atol=0)):
            return f'steps ({s.step_x!r}, {s.step_y!r}) instead of ({self.sx!r}, {self.sy!r})'
        if layers:
            for k, v in self.layers.items():
                if k.startswith(formats.SOME):
                    if not any(np.array_equal(x.data, v) for x in s.image_layers.values()):
                        return f'one of several layers with the same title is missing (there are {sorted(s.image_layers)})'
                    continue
                if k not in s.image_layers:
                    return f'layer {k!r} is missing (there are {sorted(s.image_layers)})'
                if not np.array_equal(s.image_layers[k].data, v):
                    return f'layer {k!r} differs'
        return None


def open_channel(ctx, rf, ch, plan, disk, n=0):
    """-> (argument for load, format argument, stream or None)"""
    kind, at = ch['kind'], ch.get('at', 0)
    name = f'r{n}' + {'own': rf.suffix, 'upper': rf.suffix.upper(), 'none': '', 'wrong': ch.get('wrong', '.zzz')}[ch.get('name', 'own')]
    path = os.path.join(ctx.tmp, 'd', name)
    fmt = None
    if ch.get('format') == 'own':
        fmt = rf.suffix
    elif ch.get('format') == 'upper':
        fmt = rf.suffix.upper()
    elif ch.get('format') == 'wrong':
        fmt = ch.get('wrong', '.zzz')
    if kind == 'bytesio':
        f = FBytes(bytes(at) + rf.bytes, plan)
        f.seek(at)
        return f, fmt, f
    if not os.path.exists(path) or kind not in ('path', 'Path'):
        with _DiskOff(disk):
            with open(path, 'wb') as fh:
                fh.write((bytes(at) if kind not in ('path', 'Path') else b'') + rf.bytes)
    if kind == 'path':
        return path, fmt, None
    if kind == 'Path':
        return Path(path), fmt, None
    raw = FRaw(path, 'r', plan)
    raw.seek(at)
    if kind == 'raw':
        return raw, fmt, raw
    if kind == 'buffered':
        f = io.BufferedReader(raw, BUFFER)
    else:
        f = io.BufferedReader(raw, 16)
    return f, fmt, f


# formats whose readers work from the position of the stream
OFFSET_FORMATS = list(formats.FORMATS)


def gen_channel(rng, f, plain=False):
    kind = rng.choice(['path', 'Path', 'bytesio', 'bytesio', 'buffered', 'tinybuf', 'raw'])
    ch = {'kind': kind}
    if kind in ('path', 'Path'):
        ch['name'] = rng.choice(['own', 'own', 'own', 'upper', 'none', 'wrong'])
        if plain:
            ch['name'] = 'own'
        if ch['name'] == 'none':
            ch['format'] = rng.choice(['own', 'upper'])
        elif ch['name'] == 'wrong':
            ch['wrong'] = rng.choice(['.zzz', '.txt', '.plu', '.vk4', '.xyz', '.nms'])
            if f in formats.MAGIC_FORMATS and formats.SUFFIX[f] != ch['wrong']:
                pass
            else:
                ch['name'] = 'own'
        if ch['name'] == 'none' and f in formats.MAGIC_FORMATS and rng.random() < 0.4:
            ch.pop('format')
    else:
        ch['format'] = rng.choice(['own', 'own', 'upper'])
        if not plain and f in formats.MAGIC_FORMATS and rng.random() < 0.25:
            ch.pop('format')
        if f in OFFSET_FORMATS and rng.random() < 0.3:
            ch['at'] = rng.choice([1, 13, 512, 8200])
    return ch


class ReadBase(FileBase):
    def shrink(self, case):
        for key in ('files', 'loads'):
            if key in case:
                for x in shrink_list(case[key], 1):
                    yield with_(case, **{key: x})
        for i, f in enumerate(case.get('files', [])):
            s = f['spec']
            if f.get('rich'):
                yield with_(case, files=case['files'][:i] + [dict(f, rich=False)] + case['files'][i + 1:])
            for alt in ({'ny': 3, 'nx': 4}, {'ny': max(2, s['ny'] // 2)}, {'nx': max(2, s['nx'] // 2)}, {'nan': 0.0},
                        {'kind': 'noise'}):
                if any(s.get(k) != v for k, v in alt.items()):
                    yield with_(case, files=case['files'][:i] + [dict(f, spec=dict(s, **alt))] + case['files'][i + 1:])


class LineBudget:
    """Bounds the work of the code under test: executed source lines of the package."""

    def __init__(self, ctx, limit, prefix):
        self.ctx, self.limit, self.prefix, self.n = ctx, limit, prefix, 0

    def __enter__(self):
        sys.settrace(self._g)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False

    def _g(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self._l
        return None

    def _l(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n > self.limit:
                sys.settrace(None)
                self.ctx.fatal('no-progress', f'more than {self.limit} source lines executed, now in '
                               f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}')
        return self._l


# ==================================================================================================================== S03
class S03(ReadBase):
    RULE = 'A run counts as non-trivial when at least one proper prefix was loaded or refused.'
    MUST_PROBE = ['refused', 'same-surface', 'cut-in-header', 'cut-in-heights', 'own-writer', 'wrong-suffix']
    ASSUMPTIONS = FileBase.ASSUMPTIONS + [
        'a prefix of an xyz point list is itself a valid point list and is not used',
        'a fits file cut between its heights and its trailing mask extension is itself a readable file without a mask and is not used']

    def gen(self, rng, tier):
        f = gen_rfile(rng, fmts=[x for x in formats.FORMATS if x != 'xyz'])
        case = {'files': [f], 'cuts': [round(rng.random(), 6) for _ in range(rng.randint(4, 14))],
                'edge': [rng.choice(['head', 'tail', 'mid']) for _ in range(3)],
                'chan': gen_channel(rng, f['fmt']), 'layers': rng.random() < 0.3, 'own': None}
        if rng.random() < 0.3:
            case['own'] = {'obj': dict(gen_save_surface(rng), dtype='f8'), 'w': gen_writer(rng)}
            case['own']['obj']['spec']['nan'] = min(0.2, case['own']['obj']['spec']['nan'])
            case['chan'] = {'kind': rng.choice(['path', 'bytesio', 'raw']), 'format': 'own'}
        return case

    def shrink(self, case):
        yield from super().shrink(case)
        for c in shrink_list(case['cuts']):
            yield with_(case, cuts=c)
        for c in shrink_list(case['edge']):
            yield with_(case, edge=c)
        if case['layers']:
            yield with_(case, layers=False)

    def run(self, case, ctx):
        os.makedirs(os.path.join(ctx.tmp, 'd'))
        if case['own']:
            ctx.probe('own-writer')
            s = make_save_surface(case['own']['obj'])
            b = io.BytesIO()
            w = case['own']['w']
            s.save(b, format=w[0], **w[1])
            whole = b.getvalue()

            class Own:
                suffix, bytes, fmt = w[0], whole, {'.sur': 'sur', '.sdf': 'sdfb', '.sflz': 'sflz', '.al3d': 'al3d', '.tmd': 'tmd'}[w[0]]

                def problem(self, x, layers=False):
                    return readback_problem(x, w, s.data, s.step_x, s.step_y, s.image_layers, layers)
            rf = Own()
        else:
            rf = RFile(case['files'][0])
            whole = rf.bytes
        n = len(whole)
        rng = random.Random(f'{n}')
        cuts = {int(x * n) for x in case['cuts']}
        for e in case['edge']:
            cuts |= {'head': {0, 1, 4, 17}, 'tail': {n - 1, n - 2, n - 9}, 'mid': {n // 2, n // 2 + 1}}[e]
        cuts = sorted(c for c in cuts if 0 <= c < n)
        skip = range(0)
        if rf.fmt == 'fits':
            skip = formats.fits_unmasked(whole, rf.data.size)
        with Disk(os.path.join(ctx.tmp, 'd')) as disk:
            for c in cuts:
                if c in skip:
                    continue
                rf.bytes = whole[:c]
                for p in os.listdir(os.path.join(ctx.tmp, 'd')):
                    os.unlink(os.path.join(ctx.tmp, 'd', p))
                arg, fmt, stream = open_channel(ctx, rf, case['chan'], Plan(ctx, None), disk)
                ctx.fault('crash: file cut off')
                ctx.nontrivial = True
                if case['chan'].get('name') == 'wrong':
                    ctx.probe('wrong-suffix')
                ctx.probe('cut-in-header' if c < 200 else 'cut-in-heights')
                try:
                    s = Surface.load(arg, format=fmt, read_image_layers=case['layers'])
                except Exception as e:
                    ctx.probe('refused')
                    ctx.event(c, type(e).__name__)
                    continue
                finally:
                    if stream is not None:
                        stream.close()
                p = rf.problem(s, False)
                ctx.event(c, 'loaded', p)
                if p:
                    ctx.violate('torn-file-accepted', f'{rf.fmt} file of {n} bytes cut off after {c} bytes, loaded by '
                                f'{case["chan"]}: {p}')
                else:
                    ctx.probe('same-surface')
        ctx.key = [short_hash(case['files']), short_hash(case['own']), tuple(cuts), short_hash(case['chan'])]
        ctx.sample = {'format': rf.fmt, 'bytes': n, 'cuts': len(cuts)}


# ==================================================================================================================== S04
def corrupt(b, ops, dims=()):
    b = bytearray(b)
    for op in ops:
        k, x, y, v = op
        n = len(b)
        if n == 0:
            break
        i = int(x * n) if isinstance(x, float) else min(x, n - 1)
        if k == 'byte':
            b[i] = v & 255
        elif k == 'bit':
            b[i] ^= 1 << (v & 7)
        elif k == 'word':
            w = [0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 0xffff, 0xfffffffe, 2 ** 24][v % 8].to_bytes(4, 'little')
            b[i:i + 4] = w[:max(0, min(4, n - i))]
        elif k == 'zero':
            m = min(n - i, int(y))
            b[i:i + m] = bytes(m)
        elif k == 'dup':
            m = int(y)
            b[i:i] = b[i:i + m]
        elif k == 'drop':
            del b[i:i + int(y)]
        elif k == 'swap':
            j = v % n
            m = int(y)
            p, q = bytes(b[i:i + m]), bytes(b[j:j + m])
            b[i:i + len(q)] = q
            b[j:j + len(p)] = p
        elif k == 'cut':
            del b[i:]
        elif k == 'extend':
            b += bytes((v + t) & 255 for t in range(int(y)))
        elif k == 'digit':
            # numbers in text headers
            d = [t for t in range(min(n, 3000)) if 48 <= b[t] <= 57]
            if d:
                b[d[v % len(d)]] = 48 + (v >> 4) % 10
        elif k == 'dim':
            # a number of points, wherever it is written down, becomes another one
            hits = []
            for m in sorted(set(dims)):
                for pat in (struct.pack('<I', m), struct.pack('>I', m), struct.pack('<H', m), str(m).encode()):
                    at = -1
                    while len(hits) < 40 and (at := b.find(pat, at + 1, 6000)) >= 0:
                        hits.append((at, pat, m))
            if hits:
                at, pat, m = hits[v % len(hits)]
                new = [m + 1, m - 1, m * 7, 0, 300 + v % 997, 20000 + v % 9973, 10 ** 6 + v, v * 1000003 % 2 ** 31, 2 ** 31 + v][int(y) % 9]
                if pat.isdigit():
                    b[at:at + len(pat)] = str(new).encode()
                elif len(pat) == 2:
                    b[at:at + 2] = struct.pack('<H', new & 0xffff)
                else:
                    b[at:at + 4] = struct.pack('<I' if pat == struct.pack('<I', m) else '>I', new & 0xffffffff)
    return bytes(b)


def gen_corruption(rng):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        k = rng.choice(['byte', 'byte', 'bit', 'word', 'word', 'word', 'zero', 'dup', 'drop', 'swap', 'cut', 'extend', 'digit',
                        'digit', 'dim', 'dim'])
        if k == 'dim':
            ops.append([k, 0, rng.randrange(9), rng.getrandbits(24)])
            continue
        x = rng.choice([rng.random(), rng.random() ** 4, rng.randrange(0, 120), rng.randrange(0, 1200)])
        ops.append([k, x, rng.choice([1, 4, 16, 100, 512, 2880]), rng.getrandbits(24)])
    return ops


class S04(ReadBase):
    RULE = 'A run counts as non-trivial when damaged bytes reached a reader.'
    MUST_PROBE = ['refused', 'loaded', 'memory-refused', 'as-stream', 'as-path']
    ASSUMPTIONS = FileBase.ASSUMPTIONS + [
        'work inside numpy, zlib and the XML parser is bounded by the wall clock limit of a run only']
    LIMIT = 120000
    CAP = 1500 << 20          # one allocation beyond this is refused
    TOUCHED = 500 << 20       # more than this must not be in use for a file of some kilobytes

    def gen(self, rng, tier):
        f = gen_rfile(rng, lo=2, hi=14)
        f['spec']['ny'], f['spec']['nx'] = min(20, f['spec']['ny']), min(20, f['spec']['nx'])
        kinds = ['path', 'bytesio', 'bytesio', 'raw']
        return {'files': [f], 'ops': [gen_corruption(rng) for _ in range(rng.randint(2, 8))],
                'chan': {'kind': rng.choice(kinds), 'name': 'own', 'format': rng.choice(['own', 'own', 'own', 'none'])},
                'layers': rng.random() < 0.4}

    def shrink(self, case):
        yield from super().shrink(case)
        for o in shrink_list(case['ops'], 1):
            yield with_(case, ops=o)
        for i, o in enumerate(case['ops']):
            for x in shrink_list(o, 1):
                yield with_(case, ops=case['ops'][:i] + [x] + case['ops'][i + 1:])

    def run(self, case, ctx):
        import resource
        from core import SRC
        os.makedirs(os.path.join(ctx.tmp, 'd'))
        faultalloc.install()
        faultalloc.cap(self.CAP)
        rf = RFile(case['files'][0])
        whole = rf.bytes
        soft = resource.getrlimit(resource.RLIMIT_AS)
        use = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (use + (2 << 30), soft[1]))
        before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        with Disk(os.path.join(ctx.tmp, 'd')) as disk:
            for ops in case['ops']:
                rf.bytes = corrupt(whole, ops, (rf.c['spec']['nx'], rf.c['spec']['ny']))
                if rf.bytes == whole:
                    continue
                for p in os.listdir(os.path.join(ctx.tmp, 'd')):
                    os.unlink(os.path.join(ctx.tmp, 'd', p))
                ctx.fault('corruption', len(ops))
                ctx.nontrivial = True
                arg, fmt, stream = open_channel(ctx, rf, case['chan'], Plan(ctx, None), disk)
                ctx.probe('as-stream' if stream is not None else 'as-path')
                with LineBudget(ctx, self.LIMIT + 100 * len(rf.bytes), SRC):
                    try:
                        Surface.load(arg, format=fmt, read_image_layers=case['layers'])
                        res = 'loaded'
                    except Exception as e:
                        res = type(e).__name__
                    except BaseException as e:
                        res = type(e).__name__
                        ctx.violate('not-an-ordinary-exception', f'{rf.fmt}: {res} for {ops}')
                peak = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
                if (peak - before) << 10 > self.TOUCHED and not ctx.violations:
                    ctx.violate('memory', f'{rf.fmt}: more than {self.TOUCHED >> 20} MB in use for {len(rf.bytes)} bytes ({res}) with {ops}')
                if stream is not None:
                    if stream.closed:
                        ctx.violate('stream-closed', f'{rf.fmt}: {ops}')
                    stream.close()
                ctx.probe('loaded' if res == 'loaded' else 'memory-refused' if res == 'MemoryError' else 'refused')
                ctx.event(res, len(rf.bytes))
        ctx.key = [short_hash(case['files']), short_hash(case['ops']), short_hash(case['chan'])]
        ctx.sample = {'format': rf.fmt}


# ==================================================================================================================== S05
class S05(ReadBase):
    RULE = 'A run counts as non-trivial when a stream was read or written with a fault, with damaged data or not at its start.'
    MUST_PROBE = ['read-ok', 'read-failed', 'write-ok', 'write-failed', 'damaged', 'offset', 'again']
    ASSUMPTIONS = FileBase.ASSUMPTIONS

    def gen(self, rng, tier):
        loads = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.65:
                f = gen_rfile(rng)
                a = {'do': 'load', 'file': f, 'kind': rng.choice(['bytesio', 'bytesio', 'buffered', 'tinybuf', 'raw']),
                     'format': rng.choice(['own', 'own', 'own', 'none', 'wrong']), 'layers': rng.random() < 0.3,
                     'at': rng.choice([0, 0, 0, 1, 40, 9000])}
                if rng.random() < 0.35:
                    a['ops'] = gen_corruption(rng)
                if rng.random() < 0.5:
                    a['fault'] = gen_rfault(rng)
                if rng.random() < 0.3:
                    a['at2'] = rng.choice([0, 1, 5])
            else:
                a = {'do': 'save', 'obj': gen_save_surface(rng), 'w': gen_writer(rng)}
                a['t'] = {'kind': rng.choice(['bytesio', 'buffered', 'random', 'raw']), 'at': rng.choice([0, 1, 37, 9000]),
                          'name': 't', 'old': 0, 'formatcase': 'lower'}
                if rng.random() < 0.7:
                    a['fault'] = gen_wfault(rng, 20000, a['t']['kind'])
                    if a['fault']['kind'] in ('open', 'close'):
                        a['fault'] = {'kind': 'eio-write', 'call': 0, 'times': 1}
                if rng.random() < 0.15:
                    a['bad'] = rng.choice([{'dtype': 'nope'}, {'compression': 'x'}, {'unknown': 1}])
            loads.append(a)
        return {'loads': loads}

    def run(self, case, ctx):
        os.makedirs(os.path.join(ctx.tmp, 'd'))
        if any((a.get('fault') or {}).get('kind') == 'alloc' for a in case['loads']):
            faultalloc.install()
        with Disk(os.path.join(ctx.tmp, 'd')) as disk:
            for n, a in enumerate(case['loads']):
                if a['do'] == 'load':
                    self.load(ctx, disk, n, a)
                else:
                    self.save(ctx, disk, n, a)
        ctx.key = [short_hash(case['loads'])]
        ctx.sample = {'actions': len(case['loads'])}

    def load(self, ctx, disk, n, a):
        rf = RFile(a['file'])
        if a.get('ops'):
            rf.bytes = corrupt(rf.bytes, a['ops'], (rf.c['spec']['nx'], rf.c['spec']['ny']))
            ctx.probe('damaged')
            ctx.fault('corruption')
        f = a.get('fault') or {}
        plan = Plan(ctx, f if f.get('kind') != 'alloc' else None)
        if f.get('kind') == 'eio-read':
            plan.spec = dict(f, at=int(f['x'] * len(rf.bytes)) + a['at'])
        plan.active = False
        chan = {'kind': a['kind'], 'at': a['at'], 'format': a['format'], 'wrong': '.plu'}
        arg, fmt, stream = open_channel(ctx, rf, chan, plan, disk, n)
        pos = stream.tell()
        plan.active = True
        faultalloc.cap(200 << 20)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            err = self.attempt(ctx, a, f, arg, fmt)
            plan.heal()
        ctx.event(n, type(err).__name__)
        ctx.probe('read-ok' if err is None else 'read-failed')
        if a['at']:
            ctx.probe('offset')
        ctx.nontrivial = ctx.nontrivial or bool(plan.fired or a.get('ops') or a['at'] or err)
        where = f'load {n} of {rf.fmt} by {chan} with {f or "no fault"}{", damaged" if a.get("ops") else ""}'
        if stream.closed:
            ctx.violate('stream-closed', where)
            return
        if stream.tell() != pos:
            ctx.violate('stream-moved', f'{where} ({type(err).__name__}): at {stream.tell()}, was at {pos}')
            stream.seek(pos)
        # healed: the same stream again
        if not a.get('ops') and a['format'] == 'own' and (a['at'] == 0 or rf.fmt in OFFSET_FORMATS):
            try:
                s = Surface.load(stream, format=rf.suffix)
                p = rf.problem(s)
                if p:
                    ctx.violate('second-load-differs', f'{where}, loaded again: {p}')
                ctx.probe('again')
            except Exception as e:
                ctx.violate('second-load-differs', f'{where}, loaded again: {exc_text(e)}')
            if stream.closed or stream.tell() != pos:
                ctx.violate('stream-moved', f'{where}, loaded again')
        stream.close()

    @staticmethod
    def attempt(ctx, a, f, arg, fmt):
        try:
            if f.get('kind') == 'alloc':
                with faultalloc.failing(f['n'], sticky=f['sticky'], min_size=f['min']) as fl:
                    try:
                        Surface.load(arg, format=fmt, read_image_layers=a['layers'])
                    finally:
                        if fl.failed:
                            ctx.fault('allocation fails')
            else:
                Surface.load(arg, format=fmt, read_image_layers=a['layers'])
        except (Exception, KeyboardInterrupt) as e:
            return e
        return None

    def save(self, ctx, disk, n, a):
        s = make_save_surface(a['obj'])
        w = [a['w'][0], dict(a['w'][1], **(a.get('bad') or {}))]
        sv = Save(ctx, disk, s, {'w': w, 't': a['t'], 'fault': a.get('fault')})
        err = sv.run()
        ctx.event(n, type(err).__name__)
        ctx.probe('write-ok' if err is None else 'write-failed')
        if a['t']['at']:
            ctx.probe('offset')
        ctx.nontrivial = ctx.nontrivial or bool(err or a['t']['at'])
        where = f'save {n} {w} to {a["t"]} with {a.get("fault")} ({type(err).__name__})'
        if sv.closed_by_save:
            ctx.violate('stream-closed', where)
        if sv.moved is not None and not (a['t']['kind'] in ('buffered', 'random') and (sv.plan.fired or sv.fault.get('kind') == 'rlimit')):
            # (a buffered writer that cannot flush refuses to seek)
            ctx.violate('stream-moved', f'{where}: at {sv.moved}, was at {a["t"]["at"]}')


def gen_rfault(rng, alloc=True):
    f = _gen_rfault(rng, alloc)
    if f['kind'] in ('eio-read', 'eio-call') and rng.random() < 0.2:
        f.update(interrupt=True, times=1)
    return f


def _gen_rfault(rng, alloc):
    r = rng.random()
    if r < 0.4:
        f = {'kind': 'eio-read', 'x': round(rng.random() ** rng.choice([1, 1, 3]), 5), 'times': rng.choice([1, 1, 2, 5, 1 << 30]),
             'whole': rng.random() < 0.5}
        if rng.random() < 0.4:
            f['len'] = rng.choice([1, 64, 512])
        return f
    if r < 0.65:
        return {'kind': 'eio-call', 'call': rng.choice([0, 0, 1, 2, 3, 5, 9, 20, rng.randrange(30)]),
                'times': rng.choice([1, 1, 2, 4, 1 << 30])}
    if r < 0.85 or not alloc:
        return {'kind': 'short-read', 'seed': rng.getrandbits(16)}
    return {'kind': 'alloc', 'n': rng.choice([0, 1, 2, 3, 5, 8]), 'min': rng.choice([0, 64, 400]), 'sticky': rng.random() < 0.4}


# ==================================================================================================================== S07
class S07(ReadBase):
    RULE = 'A run counts as non-trivial when a fault was injected into a load.'
    MUST_PROBE = ['raised', 'right-despite-fault', 'healed', 'read I/O error', 'short read', 'allocation fails',
                  'open fails', 'no-magic-format']

    def gen(self, rng, tier):
        loads = []
        for _ in range(rng.randint(1, 4)):
            f = gen_rfile(rng)
            ch = gen_channel(rng, f['fmt'], plain=rng.random() < 0.6)
            fault = gen_rfault(rng)
            if ch['kind'] in ('path', 'Path') and rng.random() < 0.1:
                fault = {'kind': 'open', 'times': rng.choice([1, 1, 2, 1 << 30])}
            loads.append({'file': f, 'chan': ch, 'fault': fault, 'layers': rng.random() < 0.3})
        return {'loads': loads}

    def shrink(self, case):
        yield from super().shrink(case)
        for i, a in enumerate(case['loads']):
            s = a['file']['spec']
            for alt in ({'ny': 3, 'nx': 4}, {'nan': 0.0}, {'kind': 'noise'}):
                if any(s.get(k) != v for k, v in alt.items()):
                    g = dict(a, file=dict(a['file'], spec=dict(s, **alt)))
                    yield with_(case, loads=case['loads'][:i] + [g] + case['loads'][i + 1:])

    def run(self, case, ctx):
        os.makedirs(os.path.join(ctx.tmp, 'd'))
        if any(a['fault']['kind'] == 'alloc' for a in case['loads']):
            faultalloc.install()
        with Disk(os.path.join(ctx.tmp, 'd')) as disk:
            for n, a in enumerate(case['loads']):
                rf = RFile(a['file'])
                f = a['fault']
                spec = dict(f)
                if f['kind'] == 'eio-read':
                    spec['at'] = int(f['x'] * len(rf.bytes)) + a['chan'].get('at', 0)
                plan = Plan(ctx, spec if f['kind'] != 'alloc' else None)
                plan.active = False
                arg, fmt, stream = open_channel(ctx, rf, a['chan'], plan, disk, n)
                plan.active = True
                where = f'load {n} of {rf.fmt} ({len(rf.bytes)} bytes) by {a["chan"]} with {f}'
                err = s = None
                fl = None
                try:
                    with faults(disk, plan):
                        if f['kind'] == 'alloc':
                            with faultalloc.failing(f['n'], sticky=f['sticky'], min_size=f['min']) as fl:
                                s = Surface.load(arg, format=fmt, read_image_layers=a['layers'])
                        else:
                            s = Surface.load(arg, format=fmt, read_image_layers=a['layers'])
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                if fl is not None and fl.failed:
                    ctx.fault('allocation fails', fl.failed)
                fired = bool(plan.fired or (fl is not None and fl.failed))
                ctx.nontrivial = ctx.nontrivial or fired
                ctx.event(n, type(err).__name__, fired)
                if rf.fmt not in formats.MAGIC_FORMATS:
                    ctx.probe('no-magic-format')
                if err is None:
                    p = rf.problem(s, a['layers'])
                    if p:
                        ctx.violate('wrong-surface', f'{where}: {p}')
                    elif fired:
                        ctx.probe('right-despite-fault')
                elif not fired:
                    ctx.violate('load-refused', f'{where}: raised {exc_text(err)} without a fault')
                else:
                    ctx.probe('raised')
                # the fault is gone
                try:
                    if stream is not None and stream.closed:
                        ctx.violate('stream-closed', where)
                        continue
                    s = Surface.load(arg, format=fmt, read_image_layers=a['layers'])
                    p = rf.problem(s, a['layers'])
                    if p:
                        ctx.violate('not-recovered', f'{where}, loaded again: {p}')
                    ctx.probe('healed')
                except Exception as e:
                    ctx.violate('not-recovered', f'{where}, loaded again: {exc_text(e)}')
                if stream is not None:
                    stream.close()
        ctx.key = [short_hash(case['loads'])]
        ctx.sample = {'loads': len(case['loads'])}


# ==================================================================================================================== S06
class S06(ReadBase):
    RULE = 'A run counts as non-trivial when at least two loads were compared with the recorded surface.'
    MUST_PROBE = ['path', 'stream', 'no-format', 'wrong-suffix', 'concurrent', 'layers', 'short read', 'after-others']

    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 1, 2, 3])
        files = [gen_rfile(rng) for _ in range(rng.randint(1, 3))]
        for f in files:
            if f['fmt'] == 'gwy' and rng.random() < 0.25:
                f.update(dup=True, rich=True)
        threads = []
        for t in range(nt):
            acts = []
            for _ in range(rng.randint(2, 6) if nt == 1 else rng.randint(1, 3)):
                i = rng.randrange(len(files))
                acts.append({'f': i, 'chan': gen_channel(rng, files[i]['fmt']), 'layers': rng.random() < 0.4,
                             'short': rng.random() < 0.25, 'edit': rng.random() < 0.2})
            threads.append(acts)
        return {'files': files, 'threads': threads,
                'sched': simsched.draw_sched(rng, 1500) if nt > 1 else {'mode': 'serial', 'tick': 1000}}

    def shrink(self, case):
        for i, t in enumerate(case['threads']):
            for x in shrink_list(t):
                yield with_(case, threads=case['threads'][:i] + [x] + case['threads'][i + 1:])
        for i, f in enumerate(case['files']):
            s = f['spec']
            for alt in ({'ny': 3, 'nx': 4}, {'nan': 0.0}, {'kind': 'noise'}):
                if any(s.get(k) != v for k, v in alt.items()):
                    yield with_(case, files=case['files'][:i] + [dict(f, spec=dict(s, **alt))] + case['files'][i + 1:])

    def run(self, case, ctx):
        os.makedirs(os.path.join(ctx.tmp, 'd'))
        rfs = [RFile(f) for f in case['files']]
        sim = new_sim(case, ctx)
        count = [0]

        def body(t):
            for j, a in enumerate(case['threads'][t]):
                rf = rfs[a['f']]
                ch = a['chan']
                where = f'thread {t} load {j} of {rf.fmt} {rf.data.shape} by {ch}, layers={a["layers"]}'
                with sim.untraced():
                    plan = Plan(ctx, {'kind': 'short-read', 'seed': j * 7 + t} if a['short'] else None)
                    arg, fmt, stream = open_channel(ctx, rf, ch, plan, disk, f'{t}_{j}')
                try:
                    s = Surface.load(arg, format=fmt, read_image_layers=a['layers'])
                    err = None
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                with sim.untraced():
                    if err is not None:
                        ctx.violate('load-refused', f'{where}: {exc_text(err)}')
                    else:
                        p = rf.problem(s, a['layers'])
                        if p:
                            ctx.violate('wrong-surface', f'{where}: {p}')
                        if not a['layers'] and s.image_layers and rf.fmt not in ('sflz', 'sflzf'):
                            ctx.event('layers although not asked for')
                        count[0] += 1
                        ctx.event(t, j, arr_digest(s.data))
                        if a['layers'] and rf.layers:
                            ctx.probe('layers')
                        if a['edit']:
                            try:
                                s[0, 0] = 77.0
                                for im in s.image_layers.values():
                                    if im.data.flags.writeable:
                                        im.data[:] = 0
                                s.metadata.clear()
                            except Exception as e:
                                ctx.violate('not-editable', f'{where}: {exc_text(e)}')
                    ctx.probe('path' if stream is None else 'stream')
                    if stream is not None and fmt is None:
                        ctx.probe('no-format')
                    if ch.get('name') == 'wrong':
                        ctx.probe('wrong-suffix')
                    if stream is not None and not stream.closed:
                        stream.close()

        with Disk(os.path.join(ctx.tmp, 'd')) as disk:
            with sim:
                ths = [threading.Thread(target=body, args=(t,)) for t in range(1, len(case['threads']))]
                for th in ths:
                    th.start()
                body(0)
                for th in ths:
                    th.join()
                for th in ths:
                    if th._sim_t.exc is not None:
                        raise th._sim_t.exc
            # once more by the plainest route, in the same process
            for i, rf in enumerate(rfs):
                try:
                    s = Surface.load(io.BytesIO(rf.bytes), format=rf.suffix, read_image_layers=True)
                    p = rf.problem(s, True)
                except Exception as e:
                    p = exc_text(e)
                if p:
                    ctx.violate('wrong-surface', f'{rf.fmt} loaded after the others: {p}')
                ctx.probe('after-others')
        if len(case['threads']) > 1:
            ctx.probe('concurrent')
        ctx.nontrivial = count[0] >= 2 or (count[0] == 1 and len(rfs) > 0)
        ctx.key = [short_hash(case['files']), short_hash(case['threads'])]
        ctx.sample = {'loads': count[0]}


# ==================================================================================================================== S08
class S08(ReadBase):
    RULE = 'A run counts as non-trivial when at least two threads saved or loaded with a switch between them, or one surface was saved twice.'
    MUST_PROBE = ['save', 'load', 'same surface saved by two threads', 'parameter read', 'wrong-suffix load']

    def gen(self, rng, tier):
        nt = rng.choice([1, 2, 2, 3, 4])
        objs = [gen_save_surface(rng) for _ in range(rng.choice([1, 1, 2]))]
        for o in objs:
            o['spec']['ny'], o['spec']['nx'] = min(24, o['spec']['ny']), min(24, o['spec']['nx'])
            if o['spec']['nan'] >= 1:
                o['spec']['nan'] = 0.1
        files = [gen_rfile(rng) for _ in range(2)]
        threads = []
        for t in range(nt):
            acts = []
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                if r < 0.55:
                    acts.append(['save', rng.randrange(len(objs)), gen_writer(rng), rng.choice(['path', 'bytesio', 'raw']),
                                 rng.choice([0, 0, 100])])
                elif r < 0.85:
                    i = rng.randrange(2)
                    acts.append(['load', i, gen_channel(rng, files[i]['fmt']), rng.random() < 0.4])
                else:
                    acts.append(['read', rng.randrange(len(objs)), rng.choice(['Sa', 'Sq', 'Sz', 'Sdq'])])
            threads.append(acts)
        return {'objs': objs, 'files': files, 'threads': threads,
                'sched': simsched.draw_sched(rng, 1500) if nt > 1 else {'mode': 'serial', 'tick': 1000}}

    def shrink(self, case):
        for i, t in enumerate(case['threads']):
            for x in shrink_list(t):
                yield with_(case, threads=case['threads'][:i] + [x] + case['threads'][i + 1:])
        for i, o in enumerate(case['objs']):
            for alt in ({'layers': []}, {'dtype': 'f8'}, {'order': 'C'}, {'stamp': False}):
                if any(o[k] != v for k, v in alt.items()):
                    yield with_(case, objs=case['objs'][:i] + [dict(o, **alt)] + case['objs'][i + 1:])

    def run(self, case, ctx):
        os.makedirs(os.path.join(ctx.tmp, 'd'))
        rfs = [RFile(f) for f in case['files']]
        objs = [make_save_surface(o) for o in case['objs']]
        before = [snap(o) for o in objs]
        params = {}
        for i, o in enumerate(case['objs']):
            for p in ('Sa', 'Sq', 'Sz', 'Sdq'):
                params[i, p] = isolated(lambda: self.value(make_save_surface(o), p))
        sim = new_sim(case, ctx)
        written = []
        savers = {}

        def body(t):
            for j, a in enumerate(case['threads'][t]):
                where = f'thread {t} step {j} {a}'
                if a[0] == 'save':
                    savers.setdefault(a[1], set()).add(t)
                    ctx.probe('save')
                    w, kind, at = a[2], a[3], a[4]
                    path = os.path.join(ctx.tmp, 'd', f's{t}_{j}{w[0]}')
                    kw = dict(w[1])
                    if kind == 'path':
                        target, at = path, 0
                    else:
                        kw['format'] = w[0]
                        if kind == 'bytesio':
                            target = io.BytesIO(bytes(at))
                        else:
                            with sim.untraced():
                                with open(path, 'wb') as f:
                                    f.write(bytes(at))
                            target = FRaw(path, 'r+', Plan(ctx, {'kind': 'short-write', 'seed': j}))
                        target.seek(at)
                    try:
                        objs[a[1]].save(target, **kw)
                    except Exception as e:
                        ctx.violate('save-refused', f'{where}: {exc_text(e)}')
                        continue
                    written.append((where, a[1], w, target, at))
                    ctx.event('saved', t, j)
                elif a[0] == 'load':
                    rf, ch = rfs[a[1]], a[2]
                    ctx.probe('load')
                    with sim.untraced():
                        arg, fmt, stream = open_channel(ctx, rf, ch, Plan(ctx, None), disk, f'{t}_{j}')
                    try:
                        s = Surface.load(arg, format=fmt, read_image_layers=a[3])
                    except Exception as e:
                        ctx.violate('load-refused', f'{where}: {exc_text(e)}')
                        continue
                    with sim.untraced():
                        p = rf.problem(s, a[3])
                        if p:
                            ctx.violate('wrong-surface', f'{where}: {p}')
                        if stream is not None:
                            stream.close()
                        if ch.get('name') == 'wrong':
                            ctx.probe('wrong-suffix load')
                    ctx.event('loaded', t, j, arr_digest(s.data))
                else:
                    ctx.probe('parameter read')
                    v = self.value(objs[a[1]], a[2])
                    if not val_equal(v, params[a[1], a[2]]):
                        ctx.violate('parameter-changed', f'{where}: {v} instead of {params[a[1], a[2]]}')

        with Disk(os.path.join(ctx.tmp, 'd')) as disk:
            with sim:
                ths = [threading.Thread(target=body, args=(t,)) for t in range(1, len(case['threads']))]
                for th in ths:
                    th.start()
                body(0)
                for th in ths:
                    th.join()
                for th in ths:
                    if th._sim_t.exc is not None:
                        raise th._sim_t.exc
            for where, i, w, target, at in written:
                o = make_save_surface(case['objs'][i])
                for lay in (False, True):
                    try:
                        if isinstance(target, str):
                            s = Surface.load(target, read_image_layers=lay)
                        else:
                            if isinstance(target, FRaw):
                                b = open(target.name, 'rb').read()
                            else:
                                b = target.getvalue()
                            f = io.BytesIO(b)
                            f.seek(at)
                            s = Surface.load(f, format=w[0], read_image_layers=lay)
                        p = readback_problem(s, w, o.data, o.step_x, o.step_y, o.image_layers, lay)
                    except Exception as e:
                        p = f'cannot be loaded: {exc_text(e)}'
                    if p:
                        ctx.violate('written-wrong', f'{where}: {p}')
                        break
                if not isinstance(target, str) and target.tell() != at:
                    ctx.violate('stream-moved', where)
        for i, o in enumerate(objs):
            now = snap(o)
            if not snap_equal(before[i], now):
                ctx.violate('surface-changed', f'surface {i}: {snap_text(before[i], now)}')
        if any(len(v) > 1 for v in savers.values()):
            ctx.probe('same surface saved by two threads')
        ctx.nontrivial = (len(case['threads']) > 1 and sim.nswitch > 1) or len(written) > 1
        ctx.key = [short_hash(case['objs']), short_hash(case['threads'])]
        ctx.sample = {'saves': len(written)}

    @staticmethod
    def value(s, p):
        try:
            return float(getattr(s, p)())
        except Exception as e:
            return type(e).__name__
