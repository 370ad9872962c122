"""
Plots of surfaces and profiles under histories, concurrent reads, failing storage and failing allocations.

Oracles: the same plot of a freshly constructed object holding a copy of the same heights, spacing and image layers, drawn
in a process that was forked before the run started; and, for plots whose content is plain data, that data itself.
"""
import io
import os
import sys
import types
import threading
import warnings

import numpy as np

import simsched
import gen
import faultalloc
from disk import Disk, Plan, faults, file_size_limit
from util import new_sim, Oracle, val_equal, arr_equal, exc_text, shrink_list, with_, short_hash
from s_file import FileBase
from s_state import (snap, snap_equal, snap_text, is_profile, gen_edit, gen_read, gen_obj, make_obj, apply_set, apply_assign,
                     apply_reassign, evaluate, plain, StateBase)

from surfalize import Surface, Profile
from surfalize.image import Image

DPI = 20
LAYERS = {'Intensity': lambda r: r.uniform(0, 9, size=(5, 7)), 'Gaps': lambda r: np.where(r.rand(6, 6) < 0.2, np.nan, r.rand(6, 6)), 'Grayscale': lambda r: r.randint(0, 255, (6, 4)).astype('u1'),
          'RGB': lambda r: r.randint(0, 255, (4, 5, 3)).astype('u1')}
SAVES = ('2d', 'acf', 'fft', '3d', 'abbottm', 'studym', 'image')
NO_AXES = ('3d', 'abbottm', 'studym', 'image', 'png', 'depth')        # they make their own figure, or none


def warm():
    """What is imported on first use is imported now: a fault in an import is not a fault in a plot."""
    import PIL.Image
    import matplotlib.pyplot as plt
    import matplotlib.backends.backend_pdf
    import matplotlib.backends.backend_svg
    import scipy.ndimage            # noqa: F401
    import scipy.interpolate        # noqa: F401
    import scipy.optimize           # noqa: F401
    PIL.Image.init()
    here = os.getcwd()
    fig, ax = plt.subplots()
    ax.set_title('x')
    fig.colorbar(ax.imshow(np.arange(6.0).reshape(2, 3)))
    for f in ('png', 'pdf', 'svg', 'jpg'):
        fig.savefig(io.BytesIO(), format=f, dpi=20)
    plt.close(fig)
    os.chdir(here)


warm()


def own_cmap():
    from matplotlib.colors import LinearSegmentedColormap
    return LinearSegmentedColormap.from_list('mine', ['white', 'blue'])


def gen_plot(rng, cls, layers):
    """-> [kind, kwargs]"""
    if cls == 'P':
        kind = rng.choice(['2d'] * 6 + ['show'] * 2 + ['abbott', 'study', 'abbottm', 'studym', 'png'])
    else:
        kind = rng.choice(['2d'] * 8 + ['acf'] * 4 + ['fft'] * 4 + ['aps'] * 3 + ['show'] * 2 + ['3d'] * 5 + ['abbott', 'study', 'abbottm', 'studym', 'png', 'depth'] +
                          ['image'] * (2 if layers else 0))
    k = {}

    def maybe(p, name, *values):
        if rng.random() < p:
            k[name] = rng.choice(values)
    if kind in ('2d', 'show') and cls == 'S':
        maybe(0.5, 'cmap', 'viridis', 'gray', '<own>')
        maybe(0.5, 'maskcolor', 'red', 'white', '#00ff00', [0.2, 0.4, 0.6])
        if rng.random() < 0.35:
            k['layer'] = rng.choice((layers or ['Topography']) + ['Topography'] + (['no such layer'] if rng.random() < 0.2 else []))
        if kind == '2d':
            maybe(0.25, 'vmin', -1.5, 0.0)
            maybe(0.25, 'vmax', 2.5, 1.0)
            maybe(0.4, 'show_cbar', True, False, None)
    elif kind == 'acf':
        maybe(0.3, 'cmap', 'viridis', '<own>')
        maybe(0.4, 'show_cbar', True, False)
    elif kind == 'fft':
        maybe(0.4, 'log', False)
        maybe(0.4, 'hanning', True)
        maybe(0.3, 'subtract_mean', False)
        maybe(0.3, 'adjust_colormap', False)
        maybe(0.3, 'cmap', 'viridis', '<own>')
        maybe(0.25, 'fxmax', 0.3, 0.5, 1.0)
        maybe(0.25, 'fymax', 0.3, 0.5, 1.0)
    elif kind == 'aps':
        maybe(0.6, 'angle_step', 2, 5, 10)
    elif kind in ('abbott', 'abbottm'):
        maybe(0.5, 'nbars', 5, 12)
    elif kind == 'image':
        k['layer'] = rng.choice(layers)
    elif kind == 'depth':
        k['nprofiles'] = rng.choice([3, 5])
        k['plot'] = rng.choice([[0], [1, 2]])
    elif kind == '3d':
        maybe(0.15, 'interactive', True)
        maybe(0.3, 'level_of_detail', 50, 80)
        maybe(0.3, 'scale', 2, 0.5)
        maybe(0.3, 'zoom', 2, 0.7)
        maybe(0.3, 'vertical_angle', 20, 80)
        maybe(0.3, 'horizontal_angle', 45, -30)
        maybe(0.3, 'cmap', 'viridis')
        maybe(0.5, 'colorbar', False)
        maybe(0.3, 'show_grid', False)
        maybe(0.3, 'crop_white', False)
        maybe(0.2, 'perspective_projection', False)
    return [kind, k]


# ----------------------------------------------------------------------------------------------------------- description
def rgba(c):
    from matplotlib.colors import to_rgba_array
    try:
        return np.asarray(to_rgba_array(c), dtype='f8')
    except (ValueError, TypeError):
        return str(c)


def describe_axes(ax):
    images = []
    for im in ax.images:
        a = np.ma.asarray(im.get_array())
        a = np.ma.filled(a.astype('f8'), np.nan)
        images.append({'array': a, 'extent': [float(x) for x in im.get_extent()], 'clim': list(im.get_clim()),
                       'cmap': rgba(im.get_cmap()(np.array([0.0, 0.3, 0.8, 1.0]))) if a.ndim == 2 else None,
                       'bad': rgba(im.get_cmap()(np.ma.masked_all(1))) if a.ndim == 2 else None,
                       'origin': im.origin, 'bar': im.colorbar is not None})
    lines = [{'x': np.asarray(q.get_xdata(), dtype='f8'), 'y': np.asarray(q.get_ydata(), dtype='f8'), 'c': rgba(q.get_color()),
              'ls': q.get_linestyle(), 'm': str(q.get_marker()), 'lw': q.get_linewidth()} for q in ax.lines]
    patches = [{'v': p.get_patch_transform().transform(p.get_path().vertices), 'fc': rgba(p.get_facecolor()),
                'ec': rgba(p.get_edgecolor())} for p in ax.patches]
    leg = ax.get_legend()
    legend = None
    if leg is not None:
        legend = {'texts': [t.get_text() for t in leg.get_texts()],
                  'colors': [rgba(h.get_color()) for h in leg.get_lines()]}
    return {'images': images, 'lines': lines, 'patches': patches, 'legend': legend,
            'labels': [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()], 'kind': ax.name,
            'texts': [t.get_text() for t in ax.texts], 'xlim': list(ax.get_xlim()), 'ylim': list(ax.get_ylim()),
            'shown': bool(ax.axison), 'collections': [rgba(c.get_facecolor()) if c.get_array() is None else
                                                     np.ma.filled(np.ma.asarray(c.get_array(), dtype='f8'), np.nan)
                                                     for c in ax.collections]}


def describe_figure(fig, without=()):
    return [describe_axes(ax) for ax in fig.axes if ax not in without]


def same(a, b, tol):
    """None, or where two descriptions differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return 'keys'
        for k in a:
            d = same(a[k], b[k], tol)
            if d:
                return f'{k}: {d}'
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{len(a)} instead of {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol)
            if d:
                return f'[{i}] {d}'
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape:
            return f'shape {getattr(a, "shape", a)} instead of {getattr(b, "shape", b)}'
        fin = b[np.isfinite(b)]
        m = float(np.abs(fin).max()) if fin.size else 0.0
        if not arr_equal(a, b, 1e-7, tol * max(m, 1e-300)):
            q = ~np.isclose(a, b, 1e-7, tol * m, equal_nan=True)
            return f'{int(q.sum())} of {q.size} values differ, e.g. {a[q][:2]} instead of {b[q][:2]}'
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-12 or a != a and b != b else f'{a} instead of {b}'
    return None if a == b else f'{a!r} instead of {b!r}'


# ---------------------------------------------------------------------------------------------------------- fake renderer
class Renderer:
    """Stands in for pyvista (OpenGL): records the scene it is given and hands out a fixed picture."""

    def __init__(self):
        self.scenes = []

    def __enter__(self):
        import PIL.Image
        scenes = self.scenes
        m = types.ModuleType('pyvista')

        class StructuredGrid:
            def __init__(self, x, y, z):
                self.xyz = [np.array(q, dtype='f8') for q in (x, y, z)]
                self.point_data = {}

        class Plotter:
            def __init__(self, off_screen=None, window_size=None, **k):
                self.__dict__['scene'] = {'off_screen': bool(off_screen), 'calls': [], 'camera': None, 'mesh': None, 'k': {}}
                scenes.append(self.scene)

            def __setattr__(self, name, value):
                self.scene[name] = np.array([np.ravel(q) for q in value], dtype='f8') if name == 'camera_position' else str(value)

            def add_mesh(self, grid, **k):
                self.scene['mesh'] = grid.xyz
                self.scene['scalars'] = np.array(grid.point_data.get(k.get('scalars'), 0.0), dtype='f8')
                self.scene['k'] = {q: str(v) for q, v in k.items()}

            def screenshot(self, buffer=None, *a, **k):
                im = PIL.Image.new('RGB', (40, 30), (255, 255, 255))
                im.paste((180, 90, 30), (10, 5, 28, 22))
                im.save(buffer, format='PNG')

            def show(self, *a, **k):
                self.scene['calls'].append(['show', repr(sorted(k))])

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)

                def call(*a, **k):
                    self.scene['calls'].append([name, repr([q for q in a if isinstance(q, (int, float, str, bool))]),
                                                repr(sorted((q, v) for q, v in k.items() if isinstance(v, (int, float, str, bool))))])
                return call

        class Light:
            def __init__(self, **k):
                pass

        m.StructuredGrid, m.Plotter, m.Light = StructuredGrid, Plotter, Light
        self.old = sys.modules.get('pyvista')
        sys.modules['pyvista'] = m
        self.saved = []
        for n, mod in list(sys.modules.items()):          # a module that imported it at the top
            if n.split('.')[0] == 'surfalize':
                for k, v in list(vars(mod).items()):
                    if isinstance(v, types.ModuleType) and v.__name__ == 'pyvista':
                        self.saved.append((mod, k, v))
                        setattr(mod, k, m)
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)
        if self.old is None:
            del sys.modules['pyvista']
        else:
            sys.modules['pyvista'] = self.old
        return False


class Small:
    """Real rendering, but at a small size, whatever the resolution asked for."""

    def __enter__(self):
        import matplotlib.figure
        self.cls = matplotlib.figure.Figure
        self.real = real = self.cls.savefig

        def savefig(fig, *a, **k):
            k['dpi'] = DPI
            return real(fig, *a, **k)
        self.cls.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.real
        return False


# ---------------------------------------------------------------------------------------------------------------- drawing
def draw(o, kind, kw, target, cm, save=None, shown=None):
    """Draws one plot -> (result, figure, axes of the caller that may change, axes that must not)"""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    k = {q: (cm if v == '<own>' else tuple(v) if isinstance(v, list) else v) for q, v in kw.items()}
    keep, ax, fig = None, None, None
    if target == 'sub':
        fig, (ax, keep) = plt.subplots(1, 2)
        keep.plot([1, 2, 3], [4, 1, 2])
        plt.sca(keep)
    elif target == 'bare':
        fig = Figure()
        ax = fig.add_subplot(1, 1, 1)
    if ax is not None:
        k['ax'] = ax
    if save is not None:
        k['save_to'] = save
    return ax, keep, fig, k


def invoke(o, kind, k):
    if kind == '2d':
        return o.plot_2d(**k)
    if kind == 'show':
        return o.show(**k)
    if kind == 'acf':
        return o.plot_autocorrelation(**k)
    if kind == 'fft':
        return o.plot_fourier_transform(**k)
    if kind == 'aps':
        return o.plot_angular_power_spectrum(**k)
    if kind == 'abbott':
        return o.get_abbott_firestone_curve().plot(**k)
    if kind == 'study':
        return o.get_abbott_firestone_curve().visual_parameter_study(**k)
    if kind == 'abbottm':
        return o.plot_abbott_curve(**k)
    if kind == 'studym':
        return o.plot_functional_parameter_study(**k)
    if kind == 'png':
        return o._repr_png_()
    if kind == 'depth':
        return o.depth(**k)
    if kind == 'image':
        return o.image_layers[k['layer']].save(k['save_to'])
    if kind == '3d':
        return o.plot_3d(**k)
    raise ValueError(kind)


class Show:
    """plt.show() of an interactive session: notes what it would display and closes it."""

    def __init__(self, before):
        self.before = before

    def __enter__(self):
        import matplotlib.pyplot as plt
        self.plt, self.real, self.seen = plt, plt.show, []

        def show(*a, **k):
            self.seen.append([describe_figure(plt.figure(n)) for n in plt.get_fignums() if n not in self.before])
        plt.show = show
        return self

    def __exit__(self, *a):
        self.plt.show = self.real
        return False


def outcome(o, kind, kw, target, cm, save, before=None):
    """Draws and describes. -> dict"""
    import matplotlib.pyplot as plt
    ax, keep, fig, k = draw(o, kind, kw, target, cm, save)
    kept = describe_axes(keep) if keep is not None else None
    nums = set(plt.get_fignums())
    now = plt.gcf().number if nums else None
    out = {'kept': True, 'fig': fig}
    with Renderer() as ren, Show(nums - {getattr(fig, 'number', None)}) as sh:
        try:
            if before is not None:
                with before():
                    r = invoke(o, kind, k)
            else:
                r = invoke(o, kind, k)
        except Exception as e:
            out['raised'] = e
            r = None
    if keep is not None and (same(describe_axes(keep), kept, 0) or keep not in fig.axes):
        out['kept'] = False
    out['new'] = sorted(set(plt.get_fignums()) - nums)
    out['current'] = now is None or bool(out['new']) or plt.gcf().number == now
    if 'raised' in out:
        return out
    if kind == '3d':
        out['scenes'] = ren.scenes
        if not kw.get('interactive'):
            out['picture'] = np.array(r.convert('RGB'), dtype='f8')
            out['size'] = list(r.size)
    elif kind in ('show', 'png'):
        out['shown'] = sh.seen
    elif kind == 'depth':
        out['value'] = plain(r)
    elif kind == 'image':
        pass
    else:
        f, a = r
        out['drawn'] = f
        first = a[0] if isinstance(a, tuple) else a
        out['right figure'] = fig is None or f is fig
        out['right axes'] = ax is None or kind == 'aps' or first is ax
        out['main'] = describe_axes(first)
        out['all'] = describe_figure(f, without=(keep,) if keep is not None else ())
    return out


def read_picture(path):
    import PIL.Image
    with open(path, 'rb') as f:
        b = f.read()
    s = os.path.splitext(path)[1]
    if s == '.pdf':
        if not b.startswith(b'%PDF-') or not b.rstrip().endswith(b'%%EOF'):
            raise ValueError('not a complete PDF file')
        return ('pdf', b.count(b'endobj'))
    if s == '.svg':
        if not b.lstrip().startswith(b'<?xml') or not b.rstrip().endswith(b'</svg>'):
            raise ValueError('not a complete SVG file')
        return ('svg', b.count(b'<path'))
    if s == '.jpg' and not b.endswith(b'\xff\xd9'):
        raise ValueError('not a complete JPEG file')
    if s == '.png' and b'IEND' not in b[-12:]:
        raise ValueError('not a complete PNG file')
    with PIL.Image.open(io.BytesIO(b)) as im:
        im.load()
        return (s, np.array(im.convert('RGB')))


def thaw_obj(state):
    s, layers = state
    if s[0] == 'P':
        return Profile(s[1].copy(), s[2])
    return Surface(s[1].copy(), s[2], s[3], image_layers={k: Image(v.copy()) for k, v in layers.items()})


def oracle_plot(g):
    state, jobs = g
    import matplotlib.pyplot as plt
    out = []
    for j in jobs:
        o = thaw_obj(state)
        if j[0] == 'read':
            out.append(read(o, j[1]))
            continue
        _, kind, kw, target, suffix = j
        path = os.path.join(os.getcwd(), f'oracle{os.getpid()}{suffix}') if suffix else None
        with Small():
            r = outcome(o, kind, kw, target, own_cmap(), path)
        r.pop('fig')
        r.pop('drawn', None)
        if 'raised' in r:
            r['raised'] = type(r['raised']).__name__
        elif path:
            r['file'] = read_picture(path)
        if path and os.path.exists(path):
            os.remove(path)
        plt.close('all')
        out.append(r)
    return out


def read(o, p):
    if p[0] == '<aps>':
        try:
            return ('ok', [np.array(q) for q in o.get_fourier_transform().angular_power_spectrum(*p[1])])
        except Exception as e:
            return ('raise', type(e).__name__)
    if p[0] == '<acf>':
        try:
            return ('ok', np.array(o.get_autocorrelation_function().data))
        except Exception as e:
            return ('raise', type(e).__name__)
    return plain(evaluate(o, p))


# ==================================================================================================================== V01
class V01(StateBase):
    REAL = ['surfalize plotting methods of Surface, Profile, AutocorrelationFunction, FourierTransform, AbbottFirestoneCurve, '
            'surfalize.plotting', 'matplotlib (Agg), PIL, numpy, scipy']
    STUB = ['the raw layer of files (FileIO subclass following a fault plan)', 'file size limit',
            'pyvista (needs OpenGL)', "numpy's data allocator when an allocation failure is injected", 'plt.show()',
            'thread scheduler and locks (seeded simulator)']
    RULE = 'A run counts as non-trivial when an object was plotted, then changed and plotted again, or a fault was injected.'
    MUST_PROBE = ['plot-after-edit', 'missing points', 'image layer', 'saved', 'refused', 'healed', 'disk full',
                  'write I/O error', 'target:new', 'target:sub', 'target:bare', 'plot:2d', 'plot:acf', 'plot:fft', 'plot:aps',
                  'plot:3d', 'plot:show', 'plot:abbott', 'plot:study', 'plot:abbottm',
                  'plot:studym', 'plot:image', 'plot:png', 'plot:depth', 'alloc-failed-plot', 'concurrent-read', 'concurrent-edit',
                  'plot-overlapping-edit', 'profile', 'kept open']
    ASSUMPTIONS = ['plots are made by one thread (pyplot is not thread safe), another reads or edits the object meanwhile',
                   'a plot that overlaps an edit may show either state or fail',
                   'matplotlib and PIL draw and write what they are told',
                   'depth(plot=...) draws only when it calculates; a renderer stands in for pyvista']

    def gen(self, rng, tier):
        objs = []
        for _ in range(rng.choice([1, 1, 2])):
            o = gen_obj(rng)
            if o['cls'] == 'S':
                o['layers'] = rng.sample(sorted(LAYERS), rng.choice([0, 1, 2, 3]))
                if rng.random() < 0.15:
                    o['spec']['nan'] = 0.1 if o.get('dt') != 'i4' else 0.0
            objs.append(o)
        two = rng.random() < 0.35
        pools = [[] for _ in objs]
        steps = []
        last = {}
        for _ in range(rng.randint(3, 7)):
            i = rng.randrange(len(objs))
            cls = objs[i]['cls']
            r = rng.random()
            if r < 0.3:
                steps.append(['edit', i, gen_edit(rng, cls)])
            elif r < 0.4:
                steps.append(['read', i, self.gen_r(rng, cls, pools[i])])
            else:
                if i in last and rng.random() < 0.5:
                    kind, k = last[i]
                else:
                    kind, k = gen_plot(rng, cls, objs[i].get('layers'))
                last[i] = (kind, k)
                target = rng.choice(['new', 'new', 'sub', 'bare']) if kind not in NO_AXES and not (kind == 'show' and cls == 'P') else 'new'
                st = {'plot': kind, 'k': k, 'target': target, 'other': rng.random() < 0.5, 'keep': rng.random() < 0.4}
                if kind in SAVES and (cls == 'S' or kind != '2d') and (kind == 'image' or rng.random() < 0.4):
                    st['save'] = rng.choice(['.png', '.png', '.png', '.pdf', '.svg', '.jpg'])
                    if kind in ('3d', 'image') and st['save'] in ('.pdf', '.svg'):
                        st['save'] = '.png'
                    if kind == 'image' and rng.random() < 0.3:
                        st['save'] = rng.choice(['.tif', '.bmp'])
                    st['left'] = rng.random() < 0.3
                    st['path'] = rng.random() < 0.5
                    if rng.random() < 0.6:
                        st['wfault'] = self.gen_wf(rng)
                        if st['save'] == '.jpg' and st['wfault']['kind'] == 'rlimit':
                            st['wfault'] = {'kind': 'close', 'lost': 0}      # PIL overlooks a short write of its JPEG coder
                elif rng.random() < 0.1:
                    st['alloc'] = [rng.choice([0, 1, 2, 4, 8, 16, 40, 100]), rng.choice([64, 512])]
                steps.append(['plot', i, st])
        other = []
        edits = two and rng.random() < 0.4
        if edits:                   # the other thread edits the first object, then
            steps = [s for s in steps if s[0] != 'edit' or s[1] != 0]
        if two:
            for _ in range(rng.randint(2, 6)):
                i = rng.randrange(len(objs))
                if edits and i == 0 and rng.random() < 0.5:
                    other.append(['edit', i, gen_edit(rng, objs[i]['cls'])])
                else:
                    other.append(['read', i, self.gen_r(rng, objs[i]['cls'], pools[i])])
        return {'objs': objs, 'steps': steps, 'other': other,
                'finals': [[self.gen_r(rng, o['cls'], p) for _ in range(2)] for o, p in zip(objs, pools)],
                'sched': simsched.draw_sched(rng, 3000, marks=0.35) if two else {'mode': 'serial', 'tick': 1000}}

    @staticmethod
    def gen_r(rng, cls, pool):
        if cls == 'S' and rng.random() < 0.3:
            return rng.choice([['<acf>', [], {}], ['<acf>', [], {}], ['<aps>', [], {}], ['<aps>', [5], {}]])
        return gen_read(rng, cls, pool, False)

    @staticmethod
    def gen_wf(rng):
        n = rng.choice([0, 1, rng.randrange(0, 400), rng.randrange(0, 5000)])
        r = rng.random()
        if r < 0.4:
            return {'kind': 'enospc', 'at': n}
        if r < 0.55:
            return {'kind': 'eio-write', 'call': 0, 'times': rng.choice([1, 1 << 30])}
        if r < 0.65:
            return {'kind': 'short-write', 'seed': rng.getrandbits(16)}
        if r < 0.8:
            return {'kind': 'close', 'lost': rng.choice([0, 1, 100])}
        if r < 0.85:
            return {'kind': 'open', 'times': 1, 'errno': rng.choice(['EMFILE', 'EACCES', 'EROFS', 'EIO', 'ENOSPC', 'EPERM'])}
        return {'kind': 'rlimit', 'at': n}

    def shrink(self, case):
        for s in shrink_list(case['steps'], 1):
            yield with_(case, steps=s)
        if case['other']:
            yield with_(case, other=[], sched={'mode': 'serial', 'tick': 1000})
            for s in shrink_list(case['other'], 1):
                yield with_(case, other=s)
        if any(case['finals']):
            yield with_(case, finals=[[] for _ in case['finals']])
        for n, s in enumerate(case['steps']):
            if s[0] != 'plot':
                continue
            st = s[2]
            rest = lambda x: case['steps'][:n] + [['plot', s[1], x]] + case['steps'][n + 1:]
            for q in ('wfault', 'alloc', 'left', 'path'):
                if st.get(q):
                    yield with_(case, steps=rest({a: b for a, b in st.items() if a != q}))
            if 'save' in st:
                yield with_(case, steps=rest({a: b for a, b in st.items() if a not in ('save', 'left', 'path', 'wfault')}))
            if st['other']:
                yield with_(case, steps=rest(dict(st, other=False)))
            if st['target'] != 'new':
                yield with_(case, steps=rest(dict(st, target='new')))
            for q in st['k']:
                yield with_(case, steps=rest(dict(st, k={a: b for a, b in st['k'].items() if a != q})))
        yield from super().shrink(case)

    def run(self, case, ctx):
        import matplotlib.pyplot as plt
        warnings.simplefilter('ignore')
        os.makedirs(os.path.join(ctx.tmp, 'd'))
        os.chdir(ctx.tmp)
        if any(s[0] == 'plot' and s[2].get('alloc') for s in case['steps']):
            faultalloc.install()
        oracle = Oracle(oracle_plot)
        self.sim = sim = new_sim(case, ctx)
        self.ctx = ctx
        self.objs = []
        for o in case['objs']:
            x = make_obj(o)
            if o['cls'] == 'S':
                r = np.random.RandomState(o['spec']['seed'])
                x.image_layers = {n: Image(LAYERS[n](r)) for n in o['layers']}
            else:
                ctx.probe('profile')
            self.objs.append(x)
        self.cm = own_cmap()
        self.cm_before = rgba(self.cm(np.ma.masked_all(1))), rgba(self.cm(np.linspace(0, 1, 9)))
        self.rc = dict(plt.rcParams)
        self.jobs = []
        self.kept = []
        self.held = {}
        self.started = [0] * len(self.objs)
        self.done = [0] * len(self.objs)
        self.plotted = [None] * len(self.objs)

        def reader(acts):
            for j, a in enumerate(acts):
                if a[0] == 'edit':
                    self.edit(a[1], a[2], f'other {j}')
                    ctx.probe('concurrent-edit')
                else:
                    self.read(a[1], a[2], f'other thread, step {j}')
                    ctx.probe('concurrent-read')

        with sim:
            ths = []
            if case['other']:
                ths = [threading.Thread(target=reader, args=(case['other'],))]
            for t in ths:
                t.start()
            for j, s in enumerate(case['steps']):
                if s[0] == 'edit':
                    self.edit(s[1], s[2], j)
                elif s[0] == 'read':
                    self.read(s[1], s[2], f'step {j}')
                else:
                    self.plot(s[1], s[2], j)
            for t in ths:
                t.join()
            for t in ths:
                if t._sim_t.exc is not None:
                    raise t._sim_t.exc
            if any(a[0] == 'edit' for a in case['other']):
                last = {s[1]: s[2] for s in case['steps'] if s[0] == 'plot'}
                for i, st in last.items():
                    self.plot(i, {k: v for k, v in st.items() if k not in ('wfault', 'alloc')}, f'{i} at the end')
        for i, ps in enumerate(case['finals']):
            for p in ps:
                self.jobs.append((self.state(i), ('read', p), read(self.objs[i], p), f'{p} at the end'))
        self.judge(oracle)
        ctx.key = [short_hash(case['objs']), short_hash(case['steps']), short_hash(case['other'])]
        ctx.nontrivial = bool(ctx.nontrivial or ctx.faults)
        ctx.sample = {'plots': sum(1 for j in self.jobs if j[1][0] == 'plot'), 'edits': sum(self.done)}

    def state(self, i):
        o = self.objs[i]
        return snap(o), ({} if is_profile(o) else {k: np.array(v.data) for k, v in o.image_layers.items()})

    def edit(self, i, e, j):
        o = self.objs[i]
        self.started[i] += 1
        self.sim.mark()
        try:
            if e[0] == 'set':
                apply_set(o, e[1], e[2])
            elif e[0] == 'assign':
                apply_assign(o, e[1])
            elif e[0] == 'reassign':
                apply_reassign(o, self.held, e[1])
            elif e[0] == 'op':
                n, a, k = gen.call_args(e[1:])
                getattr(o, n)(*a, inplace=True, **k)
            res = 'ok'
        except Exception as x:
            res = type(x).__name__
        self.done[i] += 1
        self.ctx.event('edit', j, res)

    def read(self, i, p, where):
        clean = self.started[i] == self.done[i]
        st = None
        if clean:
            with self.sim.untraced():
                st = self.state(i)
        v = self.started[i]
        self.sim.mark()
        r = read(self.objs[i], p)
        if clean and self.started[i] == v:
            self.jobs.append((st, ('read', p), r, f'{p} read in {where}'))
            self.ctx.event('read', where, short_hash(repr(r)))

    def plot(self, i, st, j):
        import matplotlib.pyplot as plt
        ctx, o = self.ctx, self.objs[i]
        kind, target = st['plot'], st['target']
        ctx.probe('plot:' + kind)
        ctx.probe('target:' + target)
        clean = self.started[i] == self.done[i]
        version = self.started[i]
        with self.sim.untraced():
            state = self.state(i)
        if np.isnan(state[0][1].astype('f8')).any():
            ctx.probe('missing points')
        if st['k'].get('layer', 'Topography') != 'Topography':
            ctx.probe('image layer')
        if self.plotted[i] is not None and self.plotted[i] < self.done[i]:
            ctx.probe('plot-after-edit')
            ctx.nontrivial = True
        self.plotted[i] = self.done[i]
        for heal in (False, True):
            path = None
            if 'save' in st:
                path = os.path.join(ctx.tmp, 'd', f'plot{j}{st["save"]}')
                if st.get('left') and not heal:
                    with open(path, 'wb') as f:
                        f.write(b'left behind ' * 4000)
            other = None
            if st['other']:
                other = plt.figure()
                other.add_subplot().plot([1, 2], [3, 7])
                looks = describe_figure(other)
            where = f'step {j}: {kind} {st["k"]} on {target}' + (f' saved to {st["save"]}' if path else '')
            plan, before, rl = None, None, None
            fl = None
            if not heal and 'wfault' in st:
                where += f' with {st["wfault"]}'
                plan = Plan(ctx, {} if st['wfault']['kind'] == 'rlimit' else st['wfault'])
                if st['wfault']['kind'] == 'rlimit':
                    rl = file_size_limit(st['wfault']['at'])
                    before = lambda: rl
            elif not heal and 'alloc' in st:
                fl = faultalloc.failing(st['alloc'][0], min_size=st['alloc'][1])
                before = lambda: fl
                where += f' with allocation {st["alloc"]} failing'
            self.sim.mark()
            with Small(), Disk(os.path.join(ctx.tmp, 'd')) as disk:
                disk.plan = plan
                if fl is not None:
                    self.sim.cur.nopreempt += 1
                try:
                    out = outcome(o, kind, st['k'], target, self.cm,
                                  (__import__('pathlib').Path(path) if st.get('path') else path) if path else None, before)
                finally:
                    if fl is not None:
                        self.sim.cur.nopreempt -= 1
                    disk.plan = None
                    if plan is not None:
                        plan.heal()
            exc = out.get('raised')
            ctx.event('plot', j, heal, type(exc).__name__)
            failed = False
            if rl is not None and exc is not None:
                ctx.fault('file size limit')
                failed = True
            if plan is not None and plan.fired:
                failed = True
            if fl is not None and fl.failed:
                ctx.fault('allocation')
                ctx.probe('alloc-failed-plot')
                failed = True
            if path and st.get('wfault') and exc is not None:
                ctx.probe('refused')
            with self.sim.untraced():
                after = self.state(i)
            clean = clean and self.started[i] == version
            if not clean:
                ctx.probe('plot-overlapping-edit')
            if clean and not snap_equal(state[0], after[0]):
                ctx.violate('plot-changed-object', f'{where}: {snap_text(state[0], after[0])}')
            if other is not None:
                if other.number not in plt.get_fignums():
                    ctx.violate('plot-changed-other-figure', f'{where}: the figure of the user was closed')
                else:
                    d = same(describe_figure(other), looks, 0)
                    if d:
                        ctx.violate('plot-changed-other-figure', f'{where}: {d}')
            if not out['current']:
                ctx.violate('plot-changed-other-figure', f'{where}: another figure became the current one')
            if not out['kept']:
                ctx.violate('plot-changed-other-figure', f'{where}: other axes of the figure changed')
            if dict(plt.rcParams) != self.rc:
                ctx.violate('plot-changed-settings', where)
            if same([rgba(self.cm(np.ma.masked_all(1))), rgba(self.cm(np.linspace(0, 1, 9)))], list(self.cm_before), 0):
                ctx.violate('plot-changed-colormap', where)
            if exc is None and clean:
                want_new = 1 if target == 'new' and kind not in ('3d', 'image') else 0
                if kind != 'depth' and len(out['new']) != want_new:
                    ctx.violate('plot-figures', f'{where}: {len(out["new"])} figures were opened instead of {want_new}')
            self.check_kept(where)
            drawn = out.pop('drawn', None)
            if st.get('keep') and drawn is not None and clean and (heal or not ('wfault' in st or 'alloc' in st)):
                ctx.probe('kept open')
                self.kept.append((drawn, describe_figure(drawn), where))
            else:
                drawn = None
            for f in out['new']:
                if getattr(drawn, 'number', None) != f:
                    plt.close(f)
            if out['fig'] is not None and hasattr(out['fig'], 'number') and out['fig'] is not drawn:
                plt.close(out['fig'])
            if other is not None:
                plt.close(other)
            out.pop('fig')
            if clean and (not failed or exc is None and fl is None):
                if exc is not None:
                    out['raised'] = type(exc).__name__
                    out['text'] = exc_text(exc)
                elif path:
                    ctx.probe('saved')
                    try:
                        out['file'] = read_picture(path)
                    except Exception as x:
                        ctx.violate('acknowledged-but-wrong', f'{where}: {exc_text(x)}')
                self.jobs.append((state, ('plot', kind, st['k'], target, st.get('save')), out, where))
            if heal:
                ctx.probe('healed')
            if not failed:
                break

    def check_kept(self, where):
        import matplotlib.pyplot as plt
        for fig, looks, made in self.kept:
            d = same(describe_figure(fig), looks, 0)
            if d or hasattr(fig, 'number') and not plt.fignum_exists(fig.number):
                self.ctx.violate('plot-changed-other-figure', f'{where}: the plot made in {made} {d or "was closed"}')

    def judge(self, oracle):
        self.check_kept('later')
        ctx = self.ctx
        groups = []
        for n, (s, q, r, w) in enumerate(self.jobs):
            for g in groups:
                if snap_equal(g[0][0], s[0]):
                    g[1].append(n)
                    break
            else:
                groups.append((s, [n]))
        ans = oracle.ask([(s, [self.jobs[n][1] for n in ns]) for s, ns in groups])
        for (s, ns), wants in zip(groups, ans):
            for n, want in zip(ns, wants):
                _, q, got, where = self.jobs[n]
                if q[0] == 'read':
                    if got[0] != want[0] or not (val_equal(got[1], want[1]) if got[0] == 'ok' else got[1] == want[1]):
                        ctx.violate('stale-parameter', f'{where} gave {got}, a fresh object with the same heights gives {want}')
                    continue
                p = self.difference(q, s, got, want)
                if p:
                    ctx.violate('wrong-plot', f'{where}: {p}')

    @staticmethod
    def difference(q, state, got, want):
        _, kind, kw, target, suffix = q
        if 'raised' in got or 'raised' in want:
            if got.get('raised') != want.get('raised'):
                return f'{got.get("text") or "drawn"}; the same plot of a fresh object: {want.get("raised") or "drawn"}'
            return None
        for k in ('right figure', 'right axes'):
            if not got.get(k, True):
                return f'not drawn on the axes given ({k})'
        s, layers = state
        d = s[1].astype('f8')
        tol = 1e-8
        if kind == 'fft' and kw.get('log', True):
            for o in (got, want):
                for a in [o['main']] + o['all']:
                    for im in a['images']:
                        im['array'] = 10.0 ** im['array']
                        im['clim'] = []         # the mean of logarithms of values that may be zero up to rounding
        for k in ('main', 'all', 'scenes', 'picture', 'shown', 'value'):
            if k in want:
                x = same(got[k], want[k], tol)
                if x:
                    return f'differs from the same plot of a fresh object in {k} {x}'
        if 'file' in want:
            f, g = got.get('file'), want['file']
            if f is None:
                return 'no file'
            if f[0] != g[0] or (not np.array_equal(f[1], g[1]) if isinstance(g[1], np.ndarray) else f[1] != g[1]):
                return 'the file is not the one a fresh object gives'
        # the data itself
        if kind == 'image' and suffix != '.jpg':
            a = layers[kw['layer']]
            a = a if a.ndim == 3 else np.repeat(a[:, :, None], 3, axis=2)
            if a.dtype == 'u1' and not np.array_equal(f[1], a):
                return 'the file does not hold the pixels of the image'
        m = got.get('main')
        if kind in ('show', 'png') and got['shown']:
            if s[0] == 'S' and target == 'new':
                m = got['shown'][-1][-1][0]
        if m is not None and s[0] == 'P' and kind == '2d':
            y = m['lines'][-1]['y']
            x = m['lines'][-1]['x']
            if not arr_equal(y, d) or abs(x[0]) > 1e-12 or abs(x[-1] - s[3]) > 1e-9 * s[3]:
                return 'the line is not the profile'
        if m is not None and s[0] == 'S' and kind in ('2d', 'show', 'png'):
            im = m['images'][-1]
            layer = kw.get('layer', 'Topography')
            a = d if layer == 'Topography' else layers[layer].astype('f8')
            if not arr_equal(im['array'], a, 1e-6 if s[1].dtype != 'f8' or layer != 'Topography' else 0.0):
                return 'the image does not show the data'
            if same([float(x) for x in im['extent']], [0.0, float(s[4]), 0.0, float(s[5])], 0):
                return f'extent {im["extent"]} of a surface of {s[4]} x {s[5]}'
            if a.ndim == 2:
                fin = a[np.isfinite(a)]
                if fin.size:
                    lo = kw['vmin'] if kw.get('vmin') is not None else float(fin.min())
                    hi = kw['vmax'] if kw.get('vmax') is not None else float(fin.max())
                    if not val_equal([float(x) for x in im['clim']], [lo, hi], 1e-6, 1e-9):
                        return f'colours span {im["clim"]} instead of {lo, hi}'
            nan = layer == 'Topography' and bool(np.isnan(d).any())
            if (m['legend'] is not None) != nan:
                return f'legend of non-measured points: {m["legend"]}, while {"some" if nan else "none"} are'
            mc = kw.get('maskcolor', 'black')
            if nan and same(im['bad'], rgba(tuple(mc) if isinstance(mc, list) else mc), 0):
                return f'non-measured points are shown as {im["bad"]}'
            bar = kw.get('show_cbar')
            if bar is None:
                bar = layer == 'Topography'
            if im['bar'] != bar:
                return f'colour bar: {im["bar"]} instead of {bar}'
        if kind == 'acf':
            im = m['images'][-1]
            if im['array'].shape != (2 * d.shape[0] - 1, 2 * d.shape[1] - 1):
                return f'autocorrelation of shape {im["array"].shape}'
        if kind == 'fft':
            im = m['images'][-1]
            e = im['extent']
            fx = np.fft.fftshift(np.fft.fftfreq(d.shape[1], s[4] / d.shape[1]))
            fy = np.fft.fftshift(np.fft.fftfreq(d.shape[0], s[5] / d.shape[0]))
            at = [int(np.argmin(np.abs(fx - e[0]))), int(np.argmin(np.abs(fx - e[1]))),
                  int(np.argmin(np.abs(fy - e[3]))), int(np.argmin(np.abs(fy - e[2])))]
            off = [fx[at[0]] - e[0], fx[at[1]] - e[1], fy[at[2]] - e[3], fy[at[3]] - e[2]]
            if max(map(abs, off)) > 1e-9 * (fx.max() + fy.max()) + 1e-12:
                return f'the extent {e} does not consist of frequencies of the surface'
            for lim, f, i in ((kw.get('fxmax'), fx, at[1]), (kw.get('fymax'), fy, at[3])):
                lim = f[-1] if lim is None else lim
                if abs(abs(f - lim).min() - abs(f[i] - lim)) > 1e-9:
                    return f'the plot ends at a frequency of {f[i]}'
            a = d - d.mean() if kw.get('subtract_mean', True) else d
            if kw.get('hanning'):
                a = a * np.outer(np.hanning(d.shape[0]), np.hanning(d.shape[1]))
            f = np.abs(np.fft.fftshift(np.fft.fft2(a)))
            if kw.get('log', True):
                f = f + 1e-10
            f = f[at[2]:at[3] + 1, at[0]:at[1] + 1]
            single = s[1].dtype == 'f4'
            if not arr_equal(im['array'], f, 1e-3 if single else 1e-5, (1e-5 if single else 1e-8) * float(np.nanmax(np.abs(f), initial=0)) + 1e-9):
                return 'the image is not the Fourier transform of the heights'
        if kind == '3d' and not ('interactive' in kw and suffix) and kw.get('level_of_detail', 100) == 100:
            x, y, z = got['scenes'][-1]['mesh']
            if not arr_equal(z, d, 1e-6 if s[1].dtype != 'f8' else 0):
                return 'the rendered mesh does not have the heights of the surface'
            if abs(x.max() - s[4]) > 1e-9 * s[4] or abs(y.max() - s[5]) > 1e-9 * s[5] or abs(x.min()) + abs(y.min()) > 1e-12:
                return 'the rendered mesh does not have the extent of the surface'
        return None
