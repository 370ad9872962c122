"""Seeded generators: topographies, processing steps and their arguments. Everything is JSON."""
import numpy as np

KINDS = ['waves', 'waves', 'noise', 'smooth', 'step', 'tilt', 'spikes']


def surface_spec(rng, kinds=KINDS, nan_p=0.3, lo=10, hi=26, square_p=0.3):
    ny, nx = rng.randrange(lo, hi), rng.randrange(lo, hi)
    if rng.random() < square_p:
        nx = ny
    return {'ny': ny, 'nx': nx, 'kind': rng.choice(kinds), 'seed': rng.getrandbits(24),
            'nan': rng.choice([0.01, 0.05, 0.2]) if rng.random() < nan_p else 0.0}


def make_data(s):
    ny, nx = s['ny'], s['nx']
    r = np.random.RandomState(s['seed'])
    y, x = np.mgrid[0:ny, 0:nx].astype('f8')
    k = s['kind']
    noise = r.normal(size=(ny, nx))
    amp = s.get('amp', 1.0 + 4 * r.rand())
    if k == 'const':
        d = np.full((ny, nx), round(float(r.uniform(-5, 5)), 2))
    elif k == 'zero':
        d = np.zeros((ny, nx))
    elif k == 'waves':
        per = r.uniform(3.5, max(4.0, min(nx, ny) / 2.2))
        ang = r.choice([0, 0, r.uniform(0, np.pi)])
        d = amp * np.sin(2 * np.pi * (x * np.cos(ang) + y * np.sin(ang)) / per) + 0.1 * noise
    elif k == 'noise':
        d = amp * noise
    elif k == 'smooth':
        d = amp * np.cos(x / nx * 3 + r.rand()) * np.sin(y / ny * 4) + 0.02 * noise
    elif k == 'step':
        d = amp * 3 * (x > nx * r.uniform(0.3, 0.7)) + 0.02 * noise
    elif k == 'tilt':
        d = 0.3 * x - 0.2 * y + amp * 0.3 * noise
    elif k == 'spikes':
        d = 0.3 * noise + 40 * (r.rand(ny, nx) > 0.97)
    else:
        raise ValueError(k)
    d = d + s.get('offset', 0.0)
    if s.get('scale'):
        d = d * s['scale']
    n = s.get('nan', 0)
    if n:
        m = r.rand(ny, nx) < n
        if not m.any():
            m.flat[r.randint(0, ny * nx)] = True
        if m.all():
            m.flat[0] = False
        d[m] = np.nan
    return d


def step_size(rng):
    a = rng.choice([1.0, 0.5, 0.1, 0.25, 2.0, 0.33])
    return a, (a if rng.random() < 0.7 else rng.choice([0.4, 1.0, 0.7]))


# ---------------------------------------------------------------------------------------------------------- operations
def _f(rng, a, b, n=3):
    return round(rng.uniform(a, b), n)


def gen_op(rng, spec=None, names=None):
    """-> [name, args, kwargs] valid for a surface with lateral step around 0.1..2"""
    n = rng.choice(names or OPS)
    a, k = [], {}
    if n == 'remove_outliers':
        k = rng.choice([{}, {'n': _f(rng, 1.0, 3.0)}, {'n': _f(rng, 1, 3), 'method': 'median'}])
        if rng.random() < 0.3:
            a, k = [_f(rng, 1, 3), rng.choice(['mean', 'median'])], {}
    elif n == 'threshold':
        k = rng.choice([{}, {'threshold': _f(rng, 0.5, 8)}, {'threshold': [_f(rng, 0.5, 8), _f(rng, 0.5, 8)]}])
    elif n == 'filter':
        t = rng.choice(['lowpass', 'highpass', 'bandpass'])
        c = _f(rng, 2, 6)
        if t == 'bandpass':
            a = ['bandpass', c, c + _f(rng, 1, 5)]
        else:
            a = [t, c]
        if rng.random() < 0.3:
            k = {'endeffect_mode': rng.choice(['reflect', 'nearest', 'mirror', 'wrap'])}
        if rng.random() < 0.2:
            k.update(dict(zip(['filter_type', 'cutoff', 'cutoff2'], a)))
            a = []
    elif n == 'fill_nonmeasured':
        k = rng.choice([{}, {}, {'method': 'nearest'}, {'method': 'linear'}])
    elif n == 'detrend_polynomial':
        k = rng.choice([{}, {'degree': 1}, {'degree': 2}, {'degree': 3}])
    elif n == 'rotate':
        a = [rng.choice([0, 3, -7.5, 12, 90, 45, 181.5])]
    elif n == 'zoom':
        a = [rng.choice([1.1, 1.25, 1.5])]
    elif n == 'crop':
        if rng.random() < 0.6:
            a = [[1, rng.randrange(7, 11), 1, rng.randrange(7, 11)]]
            k = {'in_units': False}
        else:
            a = [[0.3, _f(rng, 2.2, 4.5), 0.2, _f(rng, 2.2, 4.5)]]
    elif n == 'align':
        k = rng.choice([{}, {'axis': 'x'}, {'axis': 'y'}, {'method': 'fft'}, {'axis': 'x', 'method': 'fft'}])
    return [n, a, k]


OPS = ['center', 'zero', 'invert', 'remove_outliers', 'threshold', 'filter', 'fill_nonmeasured', 'level',
       'detrend_polynomial', 'rotate', 'zoom', 'crop', 'align', 'stepheight_level']
# operations that rarely fail and keep the shape workable
SAFE_OPS = ['center', 'zero', 'invert', 'filter', 'fill_nonmeasured', 'level', 'detrend_polynomial', 'zoom', 'threshold',
            'remove_outliers', 'crop']

PARAMS = ['Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'Sal', 'Str', 'Ssw', 'Sk', 'Spk', 'Svk', 'Spkx',
          'Svkx', 'Sak1', 'Sak2', 'Smr1', 'Smr2', 'Smrk1', 'Smrk2', 'Sxp', 'Sdc', 'Vmp', 'Vmc', 'Vvv', 'Vvc', 'Vm', 'Vv',
          'Smr', 'Smc', 'period', 'depth', 'aspect_ratio', 'homogeneity', 'stepheight', 'cavity_volume', 'orientation',
          'surface_area', 'projected_area']
FAST_PARAMS = ['Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdq', 'surface_area', 'projected_area', 'Sdr', 'Smr', 'Smc',
               'Sxp', 'Sdc', 'Vmp', 'Vmc', 'Vvv', 'Vvc', 'Sk', 'Spk', 'Svk', 'Smr1', 'cavity_volume']
# no material ratio curve involved (the curve is by far the most expensive part of a run)
CHEAP_PARAMS = ['Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdq', 'surface_area', 'projected_area', 'Sdr',
                'cavity_volume']
TWO_VALUED = {'depth': ['mean', 'std']}


def gen_param(rng, names=None):
    """-> [name, args, kwargs]"""
    n = rng.choice(names or PARAMS)
    a, k = [], {}
    alt = rng.random() < 0.6
    if n in ('Vm', 'Vv'):
        a = [rng.choice([5, 10, 50, 80, 97.5])]
    elif n in ('Vmp',) and alt:
        k = {'p': rng.choice([5, 10, 20])}
    elif n in ('Vmc', 'Vvc') and alt:
        k = rng.choice([{'p': 5, 'q': 80}, {'p': 10, 'q': 90}, {'q': 70}, {'p': 20}])
        if rng.random() < 0.3:
            a, k = [rng.choice([5, 15]), rng.choice([70, 85])], {}
    elif n == 'Vvv' and alt:
        k = {'q': rng.choice([75, 85])}
    elif n in ('Sxp', 'Sdc') and alt:
        k = rng.choice([{'p': 5}, {'q': 60}, {'p': 2.5, 'q': 97.5}, {'p': 10, 'q': 80}])
    elif n == 'Smr':
        a = [round(rng.uniform(-1, 1), 2)]
    elif n == 'Smc':
        a = [rng.choice([2.5, 10, 50, 80, 97.5])]
    elif n in ('Sal', 'Str') and alt:
        k = {'s': rng.choice([0.2, 0.3, 0.5])}
    elif n == 'depth' and alt:
        k = rng.choice([{'nprofiles': 4}, {'nprofiles': 3, 'sampling_width': 0.3}, {'nprofiles': 6}])
    elif n == 'depth':
        k = {'nprofiles': 5}
    elif n == 'cavity_volume' and alt:
        k = {'threshold': rng.choice([0.3, 0.5, 0.7])}
    elif n == 'orientation' and alt:
        k = {'method': rng.choice(['fft', 'fft_refined'])}
    elif n == 'homogeneity':
        k = rng.choice([{'period': 3.0}, {'parameters': ['Sa', 'Sq'], 'period': 2.5}, {'parameters': ['Sa', 'Sku', 'Sdr']},
                        {}])
    return [n, a, k]


def thaw(v):
    """JSON lists back to the tuples a user would write."""
    if isinstance(v, list):
        return tuple(thaw(x) for x in v)
    return v


def call_args(step):
    n, a, k = step
    return n, [thaw(x) for x in a], {q: thaw(x) for q, x in k.items()}
