"""
The surroundings of a process: the same actions in two processes that differ in everything the inputs do not say.

One process is the run itself, the other one is forked from a second interpreter that was started with another hash seed,
another locale encoding and perhaps without assertions. In both, the wall clock, the time zone, the order in which
directories are listed, the state of the random generators, the working directory, the print settings, the order of the
actions and what was done before are set by the case.
"""
import datetime
import io
import json
import os
import random
import time
import warnings
from pathlib import Path

import numpy as np

import gen
import formats
from util import arr_digest, shrink_list, with_, short_hash
from s_file import RFile, gen_rfile, gen_save_surface, make_save_surface, gen_writer, FileBase
import s_misc
import s_batch
from envproc import STATIC, start, ask, serve

from surfalize import Surface, Batch
from surfalize.file import supported_formats_read

TIMEZONES = ['UTC', 'EST5EDT', 'CET-1CEST', 'CET-1CEST', 'XYZ-14', 'ABC12', 'IST-5:30']
CLOCKS = ['2024-05-17T10:20:30', '2023-12-31T23:59:59.999999', '2024-02-29T00:00:00', '1999-01-01T00:00:00',
          '2038-01-19T03:14:08', '2025-11-09T09:59:59']
PLAIN = {'tz': 'UTC', 'clock': CLOCKS[0], 'cwd': False, 'listing': None, 'rng': 1, 'print': False, 'warn': False,
         'order': None, 'before': []}


def helper_main(path):
    serve(path, lambda req: observe(req['case'], req['env'], req['dir'], req['out']))


# ------------------------------------------------------------------------------------------------------------- settings
def shuffled_listing(seed):
    """Directories are listed in an order of the simulator's choice (sorted without seed)."""
    real_list, real_scan = os.listdir, os.scandir

    def order(names, key):
        names = sorted(names, key=key)
        if seed is not None:
            random.Random(seed).shuffle(names)
        return names

    class Scan:
        def __init__(self, it):
            with it:
                self.it = iter(order(list(it), lambda e: e.name if isinstance(e.name, str) else os.fsdecode(e.name)))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    os.listdir = lambda path='.': order(real_list(path), None)
    os.scandir = lambda path='.': Scan(real_scan(path))


def surround(env, d):
    os.environ['TZ'] = env['tz']
    time.tzset()
    clock = s_misc.Clock(env['clock'], [0])
    s_misc.install_clock(clock)
    import dateutil.parser._parser as dp
    fake = type(datetime)('datetime')
    fake.__dict__.update({k: v for k, v in vars(datetime).items() if not k.startswith('__')})
    fake.datetime, fake.date = s_misc.sim_datetime(clock)
    dp.datetime = fake
    shuffled_listing(env['listing'])
    random.seed(env['rng'])
    np.random.seed(env['rng'])
    if env['cwd']:
        w = os.path.join(d, 'elsewhere')
        os.makedirs(w, exist_ok=True)
        os.chdir(w)
    else:
        os.chdir(d)
    if env['print']:
        np.set_printoptions(precision=2, threshold=5, edgeitems=1, suppress=True)
        import pandas as pd
        pd.set_option('display.precision', 2, 'display.max_columns', 3)
    warnings.simplefilter('always' if env['warn'] else 'ignore')


# --------------------------------------------------------------------------------------------------------- observations
def rep(v):
    """A text that says everything about a value that a user can rely on"""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return [rep(x) for x in v.ravel()]
        return f'array {v.shape} {v.dtype.str} {arr_digest(v)}'
    if isinstance(v, dict):
        return ['dict'] + [[rep(k), rep(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [rep(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted(json.dumps(rep(x)) for x in v)
    if isinstance(v, (str, bytes, int, float, bool, type(None), complex, datetime.date, datetime.time, np.generic)):
        return ascii(v)
    if hasattr(v, 'data') and isinstance(getattr(v, 'data'), np.ndarray):
        return [type(v).__name__, rep(v.data)]
    if hasattr(v, 'name') and hasattr(v, 'value'):
        return f'{type(v).__name__}.{v.name}'
    return type(v).__name__


def rep_surface(s):
    return [rep(s.data), repr(float(s.step_x)), repr(float(s.step_y)), rep(s.image_layers), rep(s.metadata)]


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return f'raises {type(e).__name__}'


def file_name(i, rf):
    return (rf.c.get('stem') or f'f{i}_x{rf.c["seed"] % 7}') + (rf.suffix.upper() if rf.c.get('upper') else rf.suffix)


class EnvFile(RFile):
    """A file that may be damaged: what comes of it must not depend on the surroundings either."""

    def __init__(self, c):
        super().__init__(c)
        dmg = c.get('damage')
        if dmg:
            r = random.Random(dmg['seed'])
            b = bytearray(self.bytes)
            if dmg['kind'] == 'cut':
                b = b[:r.randrange(len(b))]
            else:
                for _ in range(r.choice([1, 1, 3, 10])):
                    k = r.randrange(len(b)) if r.random() < 0.4 else r.randrange(min(len(b), 400))
                    b[k] = r.choice([0, 1, 0x20, 0x39, 0x7f, 0xff, r.randrange(256)])
            self.bytes = bytes(b)


def source(a, rfs, d):
    i = a['i'] % len(rfs)
    rf = rfs[i]
    p = os.path.join(d, 'in', file_name(i, rf))
    via = a['via']
    if via == 'path':
        return p, {}
    if via == 'Path':
        return Path(p), {}
    f = io.BytesIO(rf.bytes)
    if via == 'magic' and rf.fmt in formats.MAGIC_FORMATS:
        return f, {}
    return f, {'format': rf.suffix}


def act_load(a, rfs, d, out, same_clock):
    arg, kw = source(a, rfs, d)
    return rep_surface(Surface.load(arg, read_image_layers=a['layers'], **kw))


def act_params(a, rfs, d, out, same_clock):
    arg, kw = source(a, rfs, d)
    s = Surface.load(arg, **kw)
    res = []
    for op in a['ops']:
        n, aa, kk = gen.call_args(op)

        def go():
            r = getattr(s, n)(*aa, inplace=True, **kk)
            return rep(r.data)
        res.append([n, attempt(go)])
    if a['params'] is None:
        res.append(attempt(lambda: rep(s.roughness_parameters())))
    else:
        for p in a['params']:
            n, aa, kk = gen.call_args(p)
            res.append([n, attempt(lambda: rep(getattr(s, n)(*aa, **kk)))])
    if a['profile']:
        def prof():
            p = s.get_horizontal_profile(s.size.y * s.step_y / 2)
            return [rep(p.data)] + [attempt(lambda: rep(getattr(p, q)())) for q in ('Ra', 'Rq', 'Rsk', 'period', 'depth')]
        res.append(attempt(prof))
    return res


def act_batch(a, rfs, d, out, same_clock):
    if a['from'] == 'dir':
        b = Batch.from_dir(os.path.join(d, 'in'))
    elif a['from'] == 'suffixes':
        b = Batch.from_dir(os.path.join(d, 'in'), file_extensions=sorted({rf.suffix for rf in rfs}))
    else:
        b = Batch([os.path.join(d, 'in', file_name(i % len(rfs), rfs[i % len(rfs)])) for i in a['files']])
    s_batch.add_steps(b, a['steps'])
    if a['pattern']:
        b.extract_from_filename('f<idx|int>_<rest|str|x>')
    kw = {}
    if a['excel']:
        kw['saveto'] = os.path.join(out, 'batch.xlsx')
    try:
        r = b.execute(multiprocessing=False, ignore_errors=True, preserve_chaining_order=a['preserve'], **kw)
    except Exception:
        if a['from'] == 'list':
            raise
        return 'raises: which file of a directory fails first is not promised'
    df = r.get_dataframe()
    rows = [[rep(x) for x in row] for row in df.itertuples(index=False, name=None)]
    if a['from'] != 'list':
        rows.sort()             # the order of the rows of a directory is not promised
    res = [list(map(str, df.columns)), rows]
    if a['excel']:
        x = s_misc.read_xlsx(kw['saveto'])
        res.append([rep(list(x[0])), sorted(json.dumps(rep(list(q[1:]))) for q in x[1])])
    return res


def act_save(a, rfs, d, out, same_clock):
    s = make_save_surface(a['obj'])
    suffix, kw = a['w']
    p = os.path.join(out, 'saved' + suffix)
    s.save(p, **kw)
    with open(p, 'rb') as f:
        b = f.read()
    res = [short_hash(b) if same_clock else len(b)]
    t = Surface.load(p, read_image_layers=True)
    res += [rep(t.data), repr(t.step_x), repr(t.step_y), rep(t.image_layers)]
    return res


def act_convert(a, rfs, d, out, same_clock):
    from click.testing import CliRunner
    from surfalize.cli import cli
    dst = os.path.join(out, 'converted')
    r = CliRunner().invoke(cli, ['convert', os.path.join(d, 'in'), dst, '--format', a['fmt']] + (['--skip-image-layers'] if a['skip'] else []))
    res = [r.exit_code, type(r.exception).__name__]
    if r.exit_code and any(rf.c.get('damage') for rf in rfs):
        return 'raises: which file of a directory fails first is not promised'
    if os.path.isdir(dst) and r.exit_code == 0:
        for n in sorted(os.listdir(dst)):
            s = Surface.load(os.path.join(dst, n), read_image_layers=True)
            res.append([ascii(n), rep(s.data), repr(s.step_x), repr(s.step_y), rep(s.image_layers)])
    return res


ACTS = {'load': act_load, 'params': act_params, 'batch': act_batch, 'save': act_save, 'convert': act_convert}


def observe(case, env, d, out):
    """What the actions of the case give in this process. -> one observation per action"""
    surround(env, d)
    rfs = [EnvFile(f) for f in case['files']]
    same = case['env']['clock'] == case['clock']
    os.makedirs(out, exist_ok=True)
    for n, a in enumerate(env['before']):
        o = os.path.join(out, f'before{n}')
        os.makedirs(o)
        attempt(lambda: ACTS[a['do']](a, rfs, d, o, same))
    res = [None] * len(case['acts'])
    for n in env['order'] or range(len(case['acts'])):
        if n < len(case['acts']):
            a = case['acts'][n]
            o = os.path.join(out, f'act{n}')
            os.makedirs(o, exist_ok=True)
            res[n] = attempt(lambda: ACTS[a['do']](a, rfs, d, o, same))
    return json.loads(json.dumps(res))


# ------------------------------------------------------------------------------------------------------------------ D01
class D01(FileBase):
    REAL = ['surfalize.surface, profile, batch, cli convert and all readers and writers in two interpreters']
    STUB = ['wall clock (datetime and time as seen by surfalize and dateutil)', 'order of os.listdir and os.scandir',
            'time zone, hash seed, locale encoding, optimisation level and print settings are really set, per interpreter']
    RULE = 'A run counts as non-trivial when the two processes differed in at least two settings and an action succeeded.'
    MUST_PROBE = ['load', 'params', 'batch', 'save', 'convert', 'other clock', 'other listing', 'other order', 'history',
                  'layers with one title', 'other locale', 'without assertions', 'damaged file']
    ASSUMPTIONS = ['file names are ASCII', 'the rows of a batch over a directory come in any order']

    def gen_act(self, rng, n):
        r = rng.random()
        via = rng.choice(['path', 'path', 'Path', 'stream', 'magic'])
        if r < 0.35:
            return {'do': 'load', 'i': rng.randrange(n), 'via': via, 'layers': rng.random() < 0.7}
        if r < 0.55:
            return {'do': 'params', 'i': rng.randrange(n), 'via': via,
                    'ops': [gen.gen_op(rng, names=gen.OPS) for _ in range(rng.choice([0, 0, 1, 2, 3]))],
                    'params': None if rng.random() < 0.3 else
                    [gen.gen_param(rng, names=rng.choice([gen.PARAMS, gen.FAST_PARAMS])) for _ in range(rng.randint(1, 4))],
                    'profile': rng.random() < 0.3}
        if r < 0.7:
            return {'do': 'batch', 'from': rng.choice(['dir', 'suffixes', 'list', 'list']),
                    'files': [rng.randrange(n) for _ in range(rng.randint(1, 4))],
                    'steps': s_batch.gen_steps(rng, heavy=0.1), 'preserve': rng.random() < 0.6,
                    'pattern': rng.random() < 0.4, 'excel': rng.random() < 0.2}
        if r < 0.88:
            return {'do': 'save', 'obj': gen_save_surface(rng), 'w': gen_writer(rng)}
        return {'do': 'convert', 'fmt': rng.choice(['.sur', '.sdf', '.sflz', '.sflz', '.al3d', '.tmd']),
                'skip': rng.random() < 0.2}

    def gen(self, rng, tier):
        files = []
        # often several files of one format: what one leaves behind in its reader meets the next
        one = [rng.choice(formats.FORMATS)] if rng.random() < 0.45 else None
        for i in range(rng.choice([1, 2, 2, 3, 4]) if one is None else rng.choice([2, 3])):
            f = gen_rfile(rng, fmts=one or rng.choice([None, None, ['gwy', 'sdfa', 'sflz', 'surrgb', 'vk4', 'opd', 'plux', 'x3p', 'nms', 'xyz']]),
                          hi=18)
            f['spec']['ny'], f['spec']['nx'] = min(24, f['spec']['ny']), min(24, f['spec']['nx'])
            if f['fmt'] == 'gwy' and rng.random() < 0.6:
                f.update(dup=True, rich=True)
            f['upper'] = rng.random() < 0.1
            if rng.random() < 0.12:
                f['damage'] = {'kind': rng.choice(['cut', 'flip', 'flip']), 'seed': rng.getrandbits(16)}
            files.append(f)
        for i, f in enumerate(files[1:]):
            if rng.random() < 0.15:
                f['stem'] = f'f0_x{files[0]["seed"] % 7}'
        n = len(files)
        acts = [self.gen_act(rng, n) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
        if rng.random() < 0.06:
            # a regular surface with many cells
            files[0]['spec'].update(ny=rng.randrange(40, 64), nx=rng.randrange(40, 64), kind='waves')
            acts[0] = {'do': 'params', 'i': 0, 'via': 'path', 'ops': [], 'profile': False,
                       'params': [['homogeneity', [], {'period': rng.choice([1.0, 2.0, 3.0])}], ['homogeneity', [], {}],
                                  ['depth', [], {}], ['Sal', [], {}]]}
        if one is not None:
            acts = [{'do': 'load', 'i': i, 'via': 'path', 'layers': rng.random() < 0.7} for i in range(n)] + acts[:2]
        env = dict(PLAIN, rng=rng.randrange(2, 1000))
        if rng.random() < 0.6:
            env['tz'] = rng.choice(TIMEZONES)
        if env['tz'] == 'CET-1CEST' and rng.random() < 0.5:
            for f in files:
                f.update(dst=True, rich=True)
        if rng.random() < 0.6:
            env['clock'] = rng.choice(CLOCKS)
        env['cwd'] = rng.random() < 0.4
        if rng.random() < 0.6:
            env['listing'] = rng.randrange(1000)
        env['print'] = rng.random() < 0.4
        env['warn'] = rng.random() < 0.3
        if rng.random() < 0.5:
            order = list(range(len(acts)))
            rng.shuffle(order)
            env['order'] = order
        if rng.random() < 0.4:
            env['before'] = [self.gen_act(rng, n) for _ in range(rng.randint(1, 3))]
        return {'files': files, 'acts': acts, 'env': env, 'static': rng.randrange(len(STATIC)), 'clock': CLOCKS[0]}

    def prepare(self, case):
        # the second interpreters are children of the process that forks the runs
        start(case['static'])

    def shrink(self, case):
        for acts in shrink_list(case['acts'], 1):
            yield with_(case, acts=acts, env=dict(case['env'], order=None))
        for f in shrink_list(case['files'], 1):
            yield with_(case, files=f)
        for k, v in PLAIN.items():
            if case['env'][k] != v:
                yield with_(case, env=dict(case['env'], **{k: v}))
        for n, a in enumerate(case['acts']):
            rest = lambda x: case['acts'][:n] + [x] + case['acts'][n + 1:]
            for k in ('ops', 'params', 'steps'):
                if a.get(k):
                    for x in shrink_list(a[k], 1 if k != 'ops' else 0):
                        yield with_(case, acts=rest(dict(a, **{k: x})))
        for i, f in enumerate(case['files']):
            s = f['spec']
            if f.get('damage'):
                yield with_(case, files=case['files'][:i] + [{k: v for k, v in f.items() if k != 'damage'}] + case['files'][i + 1:])
            for alt in ({'ny': 4, 'nx': 4}, {'nan': 0.0}):
                if any(s.get(k) != v for k, v in alt.items()):
                    yield with_(case, files=case['files'][:i] + [dict(f, spec=dict(s, **alt))] + case['files'][i + 1:])

    def run(self, case, ctx):
        d = os.path.join(ctx.tmp, 'w')
        os.makedirs(os.path.join(d, 'in'))
        for i, f in enumerate(case['files']):
            rf = EnvFile(f)
            if f.get('damage'):
                ctx.fault('damaged file')
                ctx.probe('damaged file')
            if rf.suffix in supported_formats_read:
                with open(os.path.join(d, 'in', file_name(i, rf)), 'wb') as fh:
                    fh.write(rf.bytes)
            if f.get('dup'):
                ctx.probe('layers with one title')
        env = case['env']
        m = ask(case['static'], {'case': case, 'env': env, 'dir': d, 'out': os.path.join(d, 'other')})
        if 'error' in m:
            raise RuntimeError('second interpreter: ' + m['error'])
        ref = observe(case, PLAIN, d, os.path.join(d, 'reference'))
        changed = [k for k in PLAIN if env[k] != PLAIN[k]]
        for k in changed:
            ctx.fault({'clock': 'other clock', 'listing': 'other listing', 'order': 'other order', 'before': 'history',
                       'tz': 'other time zone', 'cwd': 'other directory', 'rng': 'other random state', 'print': 'other print settings',
                       'warn': 'other warning filters'}[k])
        s = STATIC[case['static']]
        ctx.fault('other hash seed')
        if s.get('LC_ALL') == 'C':
            ctx.fault('other locale')
        if 'PYTHONOPTIMIZE' in s:
            ctx.fault('without assertions')
        ok = 0
        for n, a in enumerate(case['acts']):
            ctx.probe(a['do'])
            ok += not (isinstance(ref[n], str) and ref[n].startswith('raises'))
            ctx.event(n, ref[n])
            if ref[n] != m['obs'][n]:
                p, q = first_difference(ref[n], m['obs'][n])
                ctx.violate('differs', f'action {n} {short(a)} gives {p} here and {q} in a process with {s} and '
                                       f'{ {k: env[k] for k in changed} }')
        ctx.nontrivial = ok > 0 and len(changed) >= 1
        ctx.key = [short_hash(case['files']), short_hash(case['acts']), sorted(changed), case['static']]
        ctx.sample = {'actions': [a['do'] for a in case['acts']], 'changed': changed}


def short(a):
    return json.dumps(a)[:300]


def first_difference(a, b, where=''):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f'{where}[{i}]')
        if len(a) != len(b):
            return f'{len(a)} items at {where}', f'{len(b)} items at {where}'
    return f'{str(a)[:200]} at {where or "all"}', str(b)[:200]

