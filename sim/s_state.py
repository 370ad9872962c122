"""
Surface and Profile objects under histories, thread interleavings and failing allocations.

The oracle of every value is a freshly constructed object holding a copy of the same heights and spacing, evaluated in a
process that was forked before the run started.
"""
import copy
import pickle
import sys
import threading
import warnings

import numpy as np

import simsched
import gen
import faultalloc
from util import new_sim, Oracle, val_equal, arr_equal, arr_digest, exc_text, shrink_list, with_, short_hash

from surfalize import Surface, Profile
from surfalize.image import Image

REAL = ['surfalize.surface.Surface, surfalize.profile.Profile, base, cache, filter, fourier, autocorrelation, '
        'abbottfirestone, mathutils', 'numpy / scipy']
STUB = ['thread scheduler and locks (seeded simulator)', "numpy's data allocator when an allocation failure is injected"]

# ------------------------------------------------------------------------------------------------------------- profiles
P_PARAMS = ['Ra', 'Rq', 'Rp', 'Rv', 'Rz', 'Rt', 'Rsk', 'Rku', 'Rdq', 'period']
P_CURVE = ['Rk', 'Rpk', 'Rvk', 'Rpkx', 'Rvkx', 'Rak1', 'Rak2', 'Rmr1', 'Rmr2', 'Rmrk1', 'Rmrk2', 'Rmr', 'Rmc', 'Rxp', 'Rdc']
P_OPS = ['center', 'zero', 'invert', 'remove_outliers', 'threshold', 'filter', 'fill_nonmeasured', 'level',
         'detrend_polynomial', 'zoom', 'crop']
STATS = ['min', 'max', 'mean', 'median', 'std']


def gen_pparam(rng, curve=False):
    if rng.random() < 0.08:
        return [rng.choice(['<missing>', '<size>']), [], {}]
    n = rng.choice(P_CURVE if curve and rng.random() < 0.5 else P_PARAMS + STATS[:2])
    a, k = [], {}
    if n in ('Rp', 'Rv', 'Rz') and rng.random() < 0.6:
        v = rng.choice([1, 2, 3, 4])
        a, k = ([v], {}) if rng.random() < 0.5 else ([], {'n_sections': v})
    elif n == 'Rmr':
        a = [round(rng.uniform(-1, 1), 2)]
    elif n == 'Rmc':
        a = [rng.choice([5, 20, 50, 80])]
    elif n in ('Rxp', 'Rdc') and rng.random() < 0.6:
        k = rng.choice([{'p': 5}, {'q': 60}, {'p': 10, 'q': 80}])
    return [n, a, k]


def gen_sparam(rng, curve=False):
    if rng.random() < 0.12:
        return [rng.choice(STATS), [], {}]
    if rng.random() < 0.08:
        return ['roughness_parameters', [rng.sample(['Sa', 'Sq', 'Sz', 'Sdq', 'Ssk'], rng.randint(1, 3))], {}]
    if rng.random() < 0.08:
        return ['height_parameters', [], {}]
    if rng.random() < 0.15:
        return rng.choice([['<missing>', [], {}], ['<size>', [], {}], ['<equal>', [], {}], ['<acf>', [], {}],
                           ['<hprofile>', [rng.choice([0.2, 0.5, 0.8])] + rng.choice([[], [3], [5, 1.0]]), {}],
                           ['<vprofile>', [rng.choice([0.2, 0.5, 0.8])] + rng.choice([[], [3], [5, 1.0]]), {}],
                           ['<aps>', [rng.choice([2, 5])], {}], ['Std', [], rng.choice([{}, {'angle_step': 5}])]])
    extra = ['period', 'depth', 'homogeneity', 'stepheight', 'orientation', 'aspect_ratio', 'Sal', 'Str']
    if curve:
        names = gen.PARAMS
    else:
        names = gen.CHEAP_PARAMS * 2 + ['Sal', 'Str', 'period', 'stepheight', 'depth', 'orientation', 'homogeneity']
    p = gen.gen_param(rng, names)
    if p[0] == 'homogeneity' and not curve:
        p[2] = rng.choice([{'period': 3.0, 'parameters': ['Sa']}, {'parameters': ['Sa', 'Sq'], 'period': 2.5},
                           {'parameters': ['Sq'], 'period': 3.0}])
    return p


def gen_pop(rng):
    n = rng.choice(P_OPS)
    if n == 'crop':
        return ['crop', [[rng.randrange(0, 4), rng.randrange(12, 20)]], {'in_units': False}]
    if n == 'zoom':
        return ['zoom', [rng.choice([1.1, 1.3])], {}]
    if n == 'detrend_polynomial':
        return [n, [], rng.choice([{}, {'degree': 2}, {'degree': 3}])]
    return gen.gen_op(rng, names=[n])


def gen_obj(rng, lo=9, hi=20):
    if rng.random() < 0.25:
        return {'cls': 'P', 'n': rng.randrange(24, 60), 'seed': rng.getrandbits(24), 'step': rng.choice([1.0, 0.5, 0.25]),
                'nan': 0.1 if rng.random() < 0.15 else 0.0}
    sx, sy = gen.step_size(rng)
    spec = gen.surface_spec(rng, nan_p=0.15, lo=lo, hi=hi)
    dt = rng.choice(['f8'] * 5 + ['f4', 'i4'])
    if dt == 'i4':
        spec['nan'] = 0.0
    return {'cls': 'S', 'spec': spec, 'sx': sx, 'sy': sy, 'dt': dt}


def p_data(o):
    r = np.random.RandomState(o['seed'])
    x = np.arange(o['n'])
    d = 2 * np.sin(2 * np.pi * x / r.uniform(5, 12)) + 0.3 * r.normal(size=o['n']) + 0.02 * x
    if o.get('nan'):
        d[r.rand(o['n']) < o['nan']] = np.nan
    return d


def make_obj(o):
    if o['cls'] == 'P':
        return Profile(p_data(o), o['step'])
    data = gen.make_data(o['spec'])
    if o.get('dt', 'f8') == 'i4':
        data = np.round(data * 3).astype('i4')
    elif o.get('dt', 'f8') != 'f8':
        data = data.astype(o['dt'])
    return Surface(data, o['sx'], o['sy'], metadata={'operator': 'x', 'n': 3},
                   image_layers={'Intensity': Image(np.arange(12.0).reshape(3, 4))} if o['spec']['seed'] % 3 == 0 else None)


def is_profile(o):
    return isinstance(o, Profile)


def snap(o):
    """What the outside can see of an object's state."""
    if is_profile(o):
        return ('P', np.array(o.data, copy=True), o.step, o.length_um, o.size)
    return ('S', np.array(o.data, copy=True), o.step_x, o.step_y, o.width_um, o.height_um, tuple(o.size),
            sorted((k, arr_digest(getattr(v, 'data', v))) for k, v in o.image_layers.items()),
            sorted((k, repr(v)) for k, v in o.metadata.items()))


def snap_equal(a, b):
    return len(a) == len(b) and a[0] == b[0] and arr_equal(a[1], b[1]) and a[1].dtype == b[1].dtype and \
        val_equal(a[2:], b[2:], 0, 0)


def snap_text(a, b):
    out = []
    if not arr_equal(a[1], b[1]):
        if a[1].shape != b[1].shape:
            out.append(f'shape {a[1].shape} -> {b[1].shape}')
        else:
            d = ~((a[1] == b[1]) | (np.isnan(a[1]) & np.isnan(b[1])))
            out.append(f'{int(d.sum())} of {d.size} heights differ')
    if not val_equal(a[2:], b[2:], 0, 0):
        out.append(f'{a[2:]} -> {b[2:]}')
    return ', '.join(out) or 'dtype'


def fresh(s):
    if s[0] == 'P':
        return Profile(s[1].copy(), s[2])
    return Surface(s[1].copy(), s[2], s[3])


def look(o, n, a):
    """Other things an object hands out."""
    if n == '<missing>':
        return bool(o.has_missing_points)
    if n == '<size>':
        return [int(x) for x in np.ravel(o.size)] + [repr(o)]
    if n == '<hprofile>':
        q = o.get_horizontal_profile(o.height_um * a[0], *a[1:])
        return [np.array(q.data), float(q.step), float(q.length_um)]
    if n == '<vprofile>':
        q = o.get_vertical_profile(o.width_um * a[0], *a[1:])
        return [np.array(q.data), float(q.step), float(q.length_um)]
    if n == '<acf>':
        return np.array(o.get_autocorrelation_function().data)
    if n == '<aps>':
        return [np.array(q) for q in o.get_fourier_transform().angular_power_spectrum(*a)]
    if n == '<equal>':
        d = np.array(o.data, copy=True)
        c = Surface(d, o.step_x, o.step_y)
        r = [bool(o == c), bool(c == o), hash(o) == hash(c)]
        c = Surface(d + 1, o.step_x, o.step_y)
        return r + [bool(o == c), bool(o != c), o == 3, bool(np.isnan(d).all())]
    raise ValueError(n)


def evaluate(obj, p):
    n, a, k = gen.call_args(p)
    if n.startswith('<'):
        try:
            return ('ok', look(obj, n, a))
        except Exception as e:
            return ('raise', type(e).__name__)
    if n == 'roughness_parameters':
        a = [list(a[0])]
    try:
        return ('ok', getattr(obj, n)(*a, **k))
    except Exception as e:
        return ('raise', type(e).__name__)


def oracle_group(g):
    """g = (snapshot, [param, ...]): every value from its own fresh object."""
    s, params = g
    return [plain(evaluate(fresh(s), p)) for p in params]


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    if isinstance(v, np.generic):
        return v.item()
    return v


def apply_set(o, kind, seed):
    """In-place edit through item assignment."""
    r = np.random.RandomState(seed)
    v = round(float(r.uniform(-9, 9)), 3)
    if is_profile(o):
        n = o.size
        if kind == 'elem':
            o[int(r.randint(n))] = v
        elif kind == 'slice':
            o[int(r.randint(n // 2)):int(r.randint(n // 2, n)) + 1] = v
        elif kind == 'mask':
            o[np.nan_to_num(o.data) > 0.5] = v
        else:
            o[:] = r.normal(size=n)
        return
    ny, nx = o.size
    if kind == 'elem':
        o[int(r.randint(ny)), int(r.randint(nx))] = v
    elif kind == 'slice':
        o[int(r.randint(ny)), :] = v
    elif kind == 'mask':
        o[np.nan_to_num(o.data) > 0.5] = v
    else:
        o[:, :] = r.normal(size=(ny, nx))


def apply_assign(o, seed):
    r = np.random.RandomState(seed)
    if is_profile(o):
        o.data = r.normal(size=o.size + int(r.randint(-3, 6)))
    else:
        ny, nx = o.size
        y, x = np.mgrid[0:ny + int(r.randint(0, 3)), 0:nx + int(r.randint(0, 3))]
        o.data = 2 * np.sin(x / 1.3) + np.cos(y / 1.7) + 0.1 * r.normal(size=x.shape)


def apply_view(o, seed):
    """Write through the array the object hands out: has to be refused, or to be an edit like any other."""
    v = o.data
    v[seed % v.shape[0]] = 7.5


def apply_reassign(o, held, seed):
    """The caller keeps an array of its own, changes it, and assigns it once more."""
    r = np.random.RandomState(seed)
    a = held.get(id(o))
    if a is None or r.randint(4) == 0:
        a = held[id(o)] = np.array(o.data, dtype='f8')
    else:
        a[r.randint(a.shape[0])] += round(float(r.uniform(1, 9)), 3)
    o.data = a


def gen_read(rng, cls, pool, curve):
    if pool and rng.random() < 0.75:
        return rng.choice(pool)
    p = gen_pparam(rng, curve) if cls == 'P' else gen_sparam(rng, curve)
    pool.append(p)
    return p


def gen_edit(rng, cls):
    r = rng.random()
    if r < 0.35:
        return ['set', rng.choice(['elem', 'slice', 'mask', 'all']), rng.getrandbits(20)]
    if r < 0.45:
        return ['assign', rng.getrandbits(20)]
    if r < 0.5:
        return ['view', rng.getrandbits(20)]
    if r < 0.58:
        return ['reassign', rng.getrandbits(20)]
    if cls == 'P':
        return ['op'] + gen_pop(rng)
    return ['op'] + gen.gen_op(rng)


class StateBase:
    REAL = REAL
    STUB = STUB
    LEVEL = 'exploration'

    def shrink(self, case):
        if 'threads' in case:
            n = len(case['threads'])
            for i in range(n):
                if n > 1 and case['threads'][i]:
                    c = list(case['threads'])
                    c[i] = []
                    yield with_(case, threads=c)
            for i in range(n):
                for smaller in shrink_list(case['threads'][i]):
                    c = list(case['threads'])
                    c[i] = smaller
                    yield with_(case, threads=c)
        for i, o in enumerate(case['objs']):
            if o['cls'] == 'S':
                s = o['spec']
                for alt in ({'ny': 9, 'nx': 9}, {'nan': 0.0}, {'kind': 'waves'}):
                    if any(s.get(k) != v for k, v in alt.items()):
                        c = list(case['objs'])
                        c[i] = dict(o, spec=dict(s, **alt))
                        yield with_(case, objs=c)


# ==================================================================================================================== C01
class C01(StateBase):
    RULE = ('A run counts as non-trivial when a parameter was read, its object then changed and a parameter of it was '
            'read again.')
    MUST_PROBE = ['read-after-edit', 'repeat-read', 'read-overlapping-edit', 'alloc-failed-read', 'profile-edit',
                  'derived-object']
    ASSUMPTIONS = ['one thread at a time edits a given object; any number of threads read it',
                   'a read that overlaps an edit may return either value or fail; every later read must be right',
                   'objects derived by stepheight_level are not asked for stepheight values (documented mask transfer)']

    def gen(self, rng, tier):
        nobj = rng.choice([1, 1, 1, 2, 3])
        objs = [gen_obj(rng) for _ in range(nobj)]
        nt = rng.choice([1, 1, 2, 2, 2, 3])
        curve = rng.random() < 0.12
        pools = [[] for _ in objs]
        threads = []
        for t in range(nt):
            acts = []
            mine = [i for i in range(nobj) if i % nt == t]
            n = rng.randint(3, 9) if nt > 1 else rng.randint(5, 16)
            if curve:
                n = min(n, 5)
            for _ in range(n):
                if mine and rng.random() < 0.4:
                    i = rng.choice(mine)
                    acts.append(['edit', i, gen_edit(rng, objs[i]['cls'])])
                elif mine and rng.random() < 0.07:
                    i = rng.choice(mine)
                    op = gen_pop(rng) if objs[i]['cls'] == 'P' else gen.gen_op(rng)
                    if rng.random() < 0.3:
                        op = [rng.choice(['both', 'deepcopy', 'pickle', 'adds', 'slice', 'steps', 'trend']), [rng.randrange(4)], {}]
                    acts.append(['derive', i, op])
                else:
                    i = rng.randrange(nobj)
                    p = gen_read(rng, objs[i]['cls'], pools[i], curve)
                    f = None
                    if rng.random() < 0.08:
                        f = [rng.choice([0, 1, 2, 4, 8, 16, 40]), rng.choice([64, 512])]
                    acts.append(['read', i, p, f])
            threads.append(acts)
        for i in range(nobj):
            while len(pools[i]) < 3:
                pools[i].append(gen_read(rng, objs[i]['cls'], [], curve))
        return {'objs': objs, 'threads': threads, 'finals': [p[:6] for p in pools],
                'sched': simsched.draw_sched(rng, 3000, marks=0.35) if nt > 1 else {'mode': 'serial', 'tick': 1000}}

    def run(self, case, ctx):
        faults = any(a[0] == 'read' and a[3] for t in case['threads'] for a in t)
        if faults:
            faultalloc.install()
        oracle = Oracle(oracle_group)
        sim = new_sim(case, ctx)
        objs = [make_obj(o) for o in case['objs']]
        held = {}
        started = [0] * len(objs)
        done = [0] * len(objs)
        reads_since = [0] * len(objs)
        seen = [set() for _ in objs]
        snaps = {}
        jobs = []          # (snapshot key, param, observed, where)
        derived = []
        tail = []

        def version(i):
            k = (i, done[i])
            if k not in snaps:
                with sim.untraced():
                    snaps[k] = snap(objs[i])
            return k

        def act(t, j, a):
            i = a[1]
            o = objs[i]
            if a[0] == 'read':
                p, f = a[2], a[3]
                clean = started[i] == done[i]
                key = version(i) if clean else None
                v0 = done[i]
                sim.mark()
                if f:
                    sim.cur.nopreempt += 1
                    try:
                        with faultalloc.failing(f[0], min_size=f[1]) as fl:
                            r = evaluate(o, p)
                    finally:
                        sim.cur.nopreempt -= 1
                    if fl.failed:
                        ctx.fault('allocation')
                        ctx.probe('alloc-failed-read')
                        ctx.event('alloc', t, j, r[0])
                        if r[0] == 'raise':
                            return
                        # numpy may retry or do without the allocation: the value then has to be right
                else:
                    r = evaluate(o, p)
                if isinstance(r[1], dict):
                    mine = dict(r[1])
                    if a[2][0] == 'height_parameters' or a[2][0] == 'roughness_parameters':
                        for q in list(r[1]):
                            r[1][q] = -1.0          # the caller may do what it likes with the result
                    r = (r[0], mine)
                r = plain(r)
                if clean and started[i] == v0:
                    jobs.append((key, p, r, f'thread {t} step {j}'))
                    ctx.event('read', t, j, repr(r))
                    if short_hash(p) in seen[i]:
                        ctx.probe('repeat-read')
                    seen[i].add(short_hash(p))
                    if started[i] and reads_since[i] >= 0:
                        ctx.probe('read-after-edit')
                        ctx.nontrivial = True
                else:
                    ctx.probe('read-overlapping-edit')
                    ctx.event('overlap', t, j)
            elif a[0] == 'edit':
                e = a[2]
                started[i] += 1
                sim.mark()
                try:
                    if e[0] == 'set':
                        apply_set(o, e[1], e[2])
                    elif e[0] == 'assign':
                        apply_assign(o, e[1])
                    elif e[0] == 'view':
                        apply_view(o, e[1])
                    elif e[0] == 'reassign':
                        apply_reassign(o, held, e[1])
                    else:
                        n, aa, kk = gen.call_args(e[1:])
                        getattr(o, n)(*aa, inplace=True, **kk)
                    res = 'ok'
                except Exception as x:
                    res = type(x).__name__
                done[i] += 1
                ctx.event('edit', t, j, res)
                ctx.probe('edit-ok' if res == 'ok' else 'edit-raised')
                if is_profile(o):
                    ctx.probe('profile-edit')
            elif a[0] == 'derive':
                try:
                    for d in derive(o, a[2]):
                        derived.append((d, a[2][0], i))
                    ctx.probe('derived-object')
                except Exception as x:
                    ctx.event('derive', type(x).__name__)

        def body(t):
            for j, a in enumerate(case['threads'][t]):
                act(t, j, a)

        with sim:
            ths = [threading.Thread(target=body, args=(t,)) for t in range(1, len(case['threads']))]
            for th in ths:
                th.start()
            body(0)
            for th in ths:
                th.join()
            for th in ths:
                if th._sim_t.exc is not None:
                    raise th._sim_t.exc
        # quiescent: everything an object returns now must be what a fresh object returns
        for i, o in enumerate(objs):
            k = ('end', i)
            snaps[k] = snap(o)
            ps = list(case['finals'][i])
            for t in case['threads']:
                for a in t:
                    if a[0] == 'read' and a[1] == i and a[2] not in ps:
                        ps.append(a[2])
            for p in ps[:10]:
                jobs.append((k, p, plain(evaluate(o, p)), 'at the end'))
        for q, (d, opname, i) in enumerate(derived):
            k = ('derived', q)
            snaps[k] = snap(d)
            for p in case['finals'][i][:4]:
                if opname == 'stepheight_level' and p[0] in ('stepheight', 'cavity_volume'):
                    continue
                jobs.append((k, p, plain(evaluate(d, p)), f'object derived by {opname}'))
        groups = {}
        for n, (k, p, r, w) in enumerate(jobs):
            groups.setdefault(k, []).append(n)
        keys = list(groups)
        ans = oracle.ask([(snaps[k], [jobs[n][1] for n in groups[k]]) for k in keys])
        for k, vals in zip(keys, ans):
            for n, want in zip(groups[k], vals):
                _, p, got, where = jobs[n]
                if got[0] != want[0] or (got[0] == 'ok' and not val_equal(got[1], want[1])) or \
                        (got[0] == 'raise' and got[1] != want[1]):
                    ctx.violate('stale-parameter', f'{p[0]}{p[1]}{p[2]} read {where} gave {got}, but a fresh object with '
                                f'the same heights and spacing gives {want}')
        ctx.key = [short_hash(case['objs']), short_hash(case['threads'])]
        ctx.sample = {'reads-checked': len(jobs), 'edits': sum(done)}


# ==================================================================================================================== C02
ARITH = ['add', 'sub', 'mul', 'div', 'adds', 'radd', 'rsub', 'rmul', 'slice', 'steps', 'row', 'hprofile', 'vprofile',
         'oprofile', 'trend', 'both', 'both', 'deepcopy', 'pickle']


def derive(o, d, pool=None):
    """-> list of new objects"""
    n, a, k = gen.call_args(d)
    if n == 'trend':
        return [x for x in o.detrend_polynomial(degree=1, return_trend=True)] if a[0] else list(o.level(return_trend=True))
    if n == 'both':
        return list(o.filter('both', [2.0, 3.0, 4.5, 2.5][a[0]]))
    if n == 'deepcopy':
        return [copy.deepcopy(o)]
    if n == 'pickle':
        return [pickle.loads(pickle.dumps(o))]
    if is_profile(o) and n in ARITH:
        n, a, k = 'zero', [], {}
    if n == 'add':
        return [o + o]
    if n == 'sub':
        return [o - 1.5]
    if n == 'mul':
        return [o * 1]
    if n == 'div':
        return [o / 1.0]
    if n == 'adds':
        return [o + 0]
    if n == 'radd':
        return [0 + o]
    if n == 'rsub':
        return [2 - o]
    if n == 'rmul':
        return [2.0 * o]
    if n == 'steps':
        return [[o[::2], o[1::2, ::2], o[:, ::2], o[::2, :]][a[0]]]
    if n == 'slice':
        y, x = o.size
        return [o[:, 1:x - 1] if a[0] % 2 else o[::1, ::1]]
    if n == 'row':
        return [o[1:o.size.y - 1]]
    if n == 'hprofile':
        return [o.get_horizontal_profile(o.height_um * 0.4, *[(), (3,), (4, 1.0), (1, 0.6)][a[0]])]
    if n == 'vprofile':
        return [o.get_vertical_profile(o.width_um * 0.4, *[(), (3,), (4, 1.0), (1, 0.6)][a[0]])]
    if n == 'oprofile':
        return [o.get_oblique_profile(0, 0, o.width_um * 0.9, o.height_um * 0.9)]
    return [getattr(o, n)(*a, **k)]


class C02(StateBase):
    RULE = 'A run counts as non-trivial when an object was derived and it or its source was changed afterwards.'
    MUST_PROBE = ['derived', 'edited-source', 'edited-derived', 'inplace-equals-copy', 'same-source-two-threads']
    ASSUMPTIONS = ['an object is edited by one thread at a time']

    def gen(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        objs = [gen_obj(rng) for _ in range(rng.choice([1, 1, 2]))]
        threads = []
        for t in range(nt):
            acts = []
            own = 0
            for _ in range(rng.randint(3, 8)):
                r = rng.random()
                if r < 0.45 or own == 0:
                    src = ['shared', rng.randrange(len(objs))] if own == 0 or rng.random() < 0.5 else ['own', rng.randrange(own)]
                    if rng.random() < 0.3:
                        d = [rng.choice(ARITH), [rng.randrange(4)], {}]
                    elif src[0] == 'shared' and objs[src[1]]['cls'] == 'P':
                        d = gen_pop(rng)
                    else:
                        d = gen.gen_op(rng)
                        if rng.random() < 0.35:
                            d = rng.choice([['fill_nonmeasured', [], {}], ['zoom', [1], {}], ['rotate', [0], {}],
                                            ['crop', [[0, 8, 0, 8]], {'in_units': False}], ['zoom', [1.0], {}],
                                            ['level', [], {}], ['center', [], {}]])
                            if src[0] == 'shared':      # the part cropped away may be nothing
                                sp = objs[src[1]]['spec']
                                if rng.random() < 0.4:
                                    d = ['crop', [[0, sp['nx'] - 1, rng.randrange(3), rng.randrange(6, sp['ny'])]],
                                         {'in_units': False}]
                                elif rng.random() < 0.2:
                                    d = ['crop', [[rng.randrange(3), rng.randrange(6, sp['nx']), 0, sp['ny'] - 1]],
                                         {'in_units': False}]
                    acts.append(['derive', src, d])
                    own += 1
                elif r < 0.85:
                    acts.append(['edit', rng.randrange(own), gen_edit(rng, 'S')])
                elif nt == 1 and rng.random() < 0.8:
                    i = rng.randrange(len(objs))
                    acts.append(['edit_shared', i, gen_edit(rng, objs[i]['cls'])])
                else:
                    acts.append(['read', rng.randrange(own), rng.choice(['Sa', 'Sq', 'Sz', 'Sdr', 'Sdq'])])
            threads.append(acts)
        return {'objs': objs, 'threads': threads,
                'sched': simsched.draw_sched(rng, 2000, marks=0.25) if nt > 1 else {'mode': 'serial', 'tick': 1000}}

    def run(self, case, ctx):
        sim = new_sim(case, ctx)
        shared = [make_obj(o) for o in case['objs']]
        truth = {}              # id -> (object, snapshot, label)
        for i, o in enumerate(shared):
            truth[id(o)] = [o, snap(o), f'object {i}']
        busy = {}               # id -> being edited by an action in progress
        shared_by = [set() for _ in shared]
        held = {}

        def check(where, own=None):
            with sim.untraced():
                for i, (o, s, label) in list(truth.items()):
                    if i in busy and i != own:
                        continue
                    now = snap(o)
                    if not snap_equal(s, now):
                        ctx.violate('changed-by-other', f'{label} changed by {where}: {snap_text(s, now)}')
                        truth[i][1] = now

        def do_edit(o, e):
            if e[0] == 'set':
                apply_set(o, e[1], e[2])
            elif e[0] == 'assign':
                apply_assign(o, e[1])
            elif e[0] == 'view':
                apply_view(o, e[1])
            elif e[0] == 'reassign':
                apply_reassign(o, held, e[1])
            else:
                n, aa, kk = gen.call_args(e[1:])
                r = getattr(o, n)(*aa, inplace=True, **kk)
                if r is not o:
                    ctx.violate('not-inplace', f'{n}(inplace=True) returned another object')

        def body(t):
            own = []
            for j, a in enumerate(case['threads'][t]):
                where = f'thread {t} step {j} {a[0]} {a[2] if len(a) > 2 else ""}'
                if a[0] == 'derive':
                    if a[1][0] == 'own':
                        if not own:
                            continue
                        src = own[a[1][1] % len(own)]
                    else:
                        src = shared[a[1][1]]
                        shared_by[a[1][1]].add(t)
                    with sim.untraced():
                        before = snap(src)
                    sim.mark()
                    try:
                        new = derive(src, a[2])
                    except Exception as x:
                        ctx.event('derive', t, j, type(x).__name__)
                        check(where)
                        continue
                    ctx.probe('derived')
                    for o in new:
                        if id(o) in truth:
                            ctx.violate('same-object', f'{where} returned an object that already exists')
                            continue
                        with sim.untraced():
                            truth[id(o)] = [o, snap(o), f'derived by {where}']
                        own.append(o)
                        ctx.event('new', t, j, arr_digest(o.data))
                    # (a surface derived by stepheight_level carries the mask of its source by design)
                    if not (a[2][0] == 'stepheight_level' and a[1][0] == 'own'):
                        self.compare(ctx, sim, before, a[2], new, where)
                    check(where)
                elif a[0] in ('edit', 'edit_shared'):
                    if a[0] == 'edit':
                        if not own:
                            continue
                        o = own[a[1] % len(own)]
                        ctx.probe('edited-derived')
                    else:
                        o = shared[a[1]]
                        ctx.probe('edited-source')
                        if own:
                            ctx.nontrivial = True
                    busy[id(o)] = 1
                    sim.mark()
                    try:
                        do_edit(o, a[2])
                    except Exception as x:
                        ctx.event('edit', t, j, type(x).__name__)
                    with sim.untraced():
                        truth[id(o)][1] = snap(o)
                    del busy[id(o)]
                    if a[0] == 'edit':
                        ctx.nontrivial = True
                    ctx.event('edited', t, j, arr_digest(o.data))
                    check(where)
                else:
                    if own:
                        o = own[a[1] % len(own)]
                        r = evaluate(o, [a[2] if not is_profile(o) else 'Ra', [], {}])
                        ctx.event('read', t, j, r[0])
                        check(where)

        with sim:
            ths = [threading.Thread(target=body, args=(t,)) for t in range(1, len(case['threads']))]
            for th in ths:
                th.start()
            body(0)
            for th in ths:
                th.join()
            for th in ths:
                if th._sim_t.exc is not None:
                    raise th._sim_t.exc
        check('the end of the run')
        if any(len(x) > 1 for x in shared_by):
            ctx.probe('same-source-two-threads')
        ctx.key = [short_hash(case['objs']), short_hash(case['threads'])]
        ctx.sample = {'objects': len(truth)}

    def compare(self, ctx, sim, before, d, new, where):
        """The derived object is what the same operation makes of an equal, untouched object, in place or not."""
        if d[0] in ARITH:
            return
        n, a, k = gen.call_args(d)
        with sim.untraced():
            for inplace in (False, True):
                o = fresh(before)
                try:
                    r = getattr(o, n)(*a, inplace=inplace, **k)
                except Exception as x:
                    ctx.violate('derive-differs', f'{where} gave a result, but on an equal object with inplace={inplace} '
                                f'it raises {exc_text(x)}')
                    return
                x, y = snap(r)[1:4], snap(new[0])[1:4]
                if not (arr_equal(x[0], y[0], rtol=1e-9, atol=1e-12) and val_equal(x[1:], y[1:])):
                    ctx.violate('derive-differs', f'{where}: result differs from the same operation with '
                                f'inplace={inplace} on an equal object')
                    return
            ctx.probe('inplace-equals-copy')


# ==================================================================================================================== C03
def gen_bad(rng, cls):
    """Operations that must be refused."""
    if cls == 'P':
        return rng.choice([['op', 'crop', [[5, 3]], {}], ['op', 'crop', [[-3, 5]], {'in_units': False}],
                           ['op', 'zoom', [0], {}], ['op', 'filter', ['nope', 3], {}], ['op', 'filter', ['bandpass', 3], {}],
                           ['op', 'remove_outliers', [], {'method': 'x'}], ['op', 'threshold', [70], {}],
                           ['op', 'detrend_polynomial', [], {'degree': -1}], ['op', 'filter', ['bandpass', 5, 3], {}],
                           ['op', 'filter', ['lowpass', 3], {'endeffect_mode': 'bad'}], ['assign_bad', 'scalar'],
                           ['assign_bad', 'none'], ['set_bad', 'shape'], ['set_bad', 'index'], ['set_bad', 'type'],
                           ['op', 'fill_nonmeasured', [], {'method': 'bad'}], ['op', 'zoom', ['a'], {}],
                           ['op', 'filter', ['both', 3], {}]])
    return rng.choice([['op', 'crop', [[0, 1e6, 0, 1e6]], {}], ['op', 'crop', [[3, 3, 1, 5]], {'in_units': False}],
                       ['op', 'crop', [[-2, 4, 0, 4]], {'in_units': False}], ['op', 'zoom', [0], {}],
                       ['op', 'zoom', ['a'], {}], ['op', 'rotate', ['a'], {}], ['op', 'rotate', [None], {}],
                       ['op', 'filter', ['nope', 3], {}], ['op', 'filter', ['bandpass', 3], {}],
                       ['op', 'filter', ['bandpass', 5, 3], {}], ['op', 'filter', ['highpass', 0], {}],
                       ['op', 'filter', ['both', 3], {}],
                       ['op', 'filter', ['lowpass', 3], {'endeffect_mode': 'bad'}],
                       ['op', 'filter', ['bandpass', 2, 4], {'endeffect_mode': 'bad'}],
                       ['op', 'filter', ['bandpass', 4, 'x'], {}],
                       ['op', 'remove_outliers', [], {'method': 'x'}], ['op', 'threshold', [70], {}],
                       ['op', 'threshold', [[1, 2, 3]], {}], ['op', 'align', [], {'axis': 'z'}],
                       ['op', 'align', [], {'method': 'none'}],
                       ['op', 'detrend_polynomial', [], {'degree': -1}], ['op', 'detrend_polynomial', [], {'degree': 'x'}],
                       ['op', 'fill_nonmeasured', [], {'method': 'bad'}], ['assign_bad', 'line'], ['assign_bad', 'cube'],
                       ['assign_bad', 'scalar'], ['assign_bad', 'none'], ['assign_bad', 'list'], ['set_bad', 'shape'],
                       ['set_bad', 'index'], ['set_bad', 'type']])


BAD_VALUE = {'line': lambda: np.arange(4.0), 'cube': lambda: np.zeros((2, 3, 4)), 'scalar': lambda: np.float64(3),
             'none': lambda: None, 'list': lambda: [[1, 2], [3, 4]]}


class C03(StateBase):
    RULE = 'A run counts as non-trivial when an in-place change failed.'
    MUST_PROBE = ['failed-change', 'alloc-failed-op', 'refused-op', 'retry-ok']
    ASSUMPTIONS = ['failures come from refused arguments or from failing data allocations; asynchronous interrupts '
                   'between two statements are not injected']

    def gen(self, rng, tier):
        obj = gen_obj(rng)
        steps = []
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            op = ['op'] + (gen_pop(rng) if obj['cls'] == 'P' else gen.gen_op(rng))
            if rng.random() < 0.25:
                op = ['op', 'filter', ['bandpass', 2.0, 4.5], {}]
            if r < 0.5:
                # the failing allocation: counted from the start, or from the end of what the step does when nothing fails
                n = rng.randrange(0, rng.choice([3, 10, 40, 120]))
                if rng.random() < 0.5:
                    n = -1 - rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 14])
                f = [n, rng.choice([0, 64, 64, 300, 600]), rng.random() < 0.3]
                steps.append([op if rng.random() < 0.8 else gen_edit(rng, obj['cls']), f])
            elif r < 0.85:
                steps.append([gen_bad(rng, obj['cls']), None])
            else:
                steps.append([op, None])
        pool = []
        for _ in range(3):
            gen_read(rng, obj['cls'], pool, rng.random() < 0.05)
        return {'objs': [obj], 'threads': [steps], 'params': pool, 'warm': rng.random() < 0.7}

    def run(self, case, ctx):
        faultalloc.install()
        oracle = Oracle(oracle_group)
        o = make_obj(case['objs'][0])
        jobs = []
        failed_ops = []
        for j, (e, f) in enumerate(case['threads'][0]):
            if case['warm']:
                for p in case['params'][:2]:
                    evaluate(o, p)
            before = snap(o)
            fl = None
            try:
                if f:
                    n = f[0]
                    if n < 0:
                        n = max(0, self.needed(before, e, f[1]) + n)
                    with faultalloc.failing(n, sticky=f[2], min_size=f[1]) as fl:
                        self.edit(o, e)
                else:
                    self.edit(o, e)
                res = 'ok'
            except Exception as x:
                res = type(x).__name__
            after = snap(o)
            ctx.event(j, res, arr_digest(after[1]), after[2:])
            if fl is not None and fl.failed:
                ctx.fault('allocation', fl.failed)
                if res != 'ok':
                    ctx.probe('alloc-failed-op')
            if res == 'ok':
                continue
            if fl is None or not fl.failed:
                ctx.fault('refused-arguments')
                ctx.probe('refused-op')
            ctx.probe('failed-change')
            ctx.nontrivial = True
            if not snap_equal(before, after):
                ctx.violate('half-changed', f'step {j} {e} failed with {res} but changed the object: '
                            f'{snap_text(before, after)}')
                continue
            # parameters still belong to the unchanged heights
            jobs.append((after, case['params'], [plain(evaluate(o, p)) for p in case['params']], j, e))
            if fl is not None and fl.failed and e[0] == 'op':
                # healed: the same operation now does what it does to an equal object
                n, a, k = gen.call_args(e[1:])
                q = fresh(before)
                try:
                    getattr(q, n)(*a, inplace=True, **k)
                    want = snap(q)
                except Exception as x:
                    want = type(x).__name__
                try:
                    self.edit(o, e)
                    got = snap(o)
                except Exception as x:
                    got = type(x).__name__
                if isinstance(want, str) or isinstance(got, str):
                    same = want == got if isinstance(want, str) and isinstance(got, str) else False
                else:
                    same = arr_equal(want[1], got[1], rtol=1e-9, atol=1e-12) and val_equal(want[2:6], got[2:6])
                ctx.probe('retry-ok')
                if not same:
                    ctx.violate('retry-differs', f'step {j} {e}: repeated after the failure it gives another result than on '
                                f'an equal object that never failed')
        ans = oracle.ask([(s, ps) for s, ps, _, _, _ in jobs])
        for (s, ps, got, j, e), want in zip(jobs, ans):
            for p, g, w in zip(ps, got, want):
                if g[0] != w[0] or not (val_equal(g[1], w[1]) if g[0] == 'ok' else g[1] == w[1]):
                    ctx.violate('stale-parameter', f'after step {j} {e} failed, {p[0]}{p[1]}{p[2]} gave {g} instead of {w}')
        ctx.key = [short_hash(case['objs']), short_hash(case['threads'])]
        ctx.sample = {'steps': len(case['threads'][0])}

    def needed(self, before, e, min_size):
        """Allocations this step makes on an equal object."""
        q = fresh(before)
        with faultalloc.failing(1 << 40, min_size=min_size):
            try:
                self.edit(q, e)
            except Exception:
                pass
            return faultalloc.allocations()

    @staticmethod
    def edit(o, e):
        if e[0] == 'set':
            apply_set(o, e[1], e[2])
        elif e[0] == 'assign':
            apply_assign(o, e[1])
        elif e[0] == 'view':
            apply_view(o, e[1])
        elif e[0] == 'reassign':
            apply_reassign(o, {}, e[1])
        elif e[0] == 'assign_bad':
            o.data = BAD_VALUE[e[1]]()
        elif e[0] == 'set_bad':
            if e[1] == 'shape':
                o[0:2] = np.zeros(777)
            elif e[1] == 'index':
                o[10 ** 6] = 1.0
            else:
                o[0] = 'text'
        else:
            n, a, k = gen.call_args(e[1:])
            getattr(o, n)(*a, inplace=True, **k)
