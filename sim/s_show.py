"""
The show command: real command, readers, operations and 2D plot, with the disk, the window system and the 3D renderer simulated.
"""
import io
import os
import warnings

import numpy as np

import faultalloc
from disk import Disk, Plan
from util import exc_text, shrink_list, with_, short_hash, arr_digest
from s_file import FileBase, RFile, gen_rfile, gen_rfault
from s_misc import P01
from s_plot import Renderer, describe_axes

from surfalize import Surface
from surfalize.file import supported_formats_read

OPS = [[], [], [], ['--level'], ['-l'], ['-c'], ['--center'], ['-z'], ['--highpass', '4'], ['-hp', '3'], ['-lp', '3'], ['--lowpass', '5'],
       ['--bandpass', '2', '6'], ['-bp', '2', '5'], ['-t', '5', '2'], ['--threshold', '1', '3'], ['--remove-outliers', '2'],
       ['-ro', '1']]
REFUSED = [['-hp', '3', '-lp', '2'], ['-lp', '3', '-bp', '2', '5'], ['-z', '-c'], ['-hp', '3', '-bp', '2', '5'], ['-t', '5'], ['-hp', 'x'], ['-bp', '3'],
           ['-ro', 'many']]
NAMES = {'l': 'level', 'c': 'center', 'z': 'zero', 'hp': 'highpass', 'lp': 'lowpass', 'bp': 'bandpass', 't': 'threshold',
         'ro': 'remove-outliers'}


class Windows:
    """A window system: the backend is an interactive one, plt.show() notes the windows and the user closes them."""

    def __init__(self, exc=None):
        self.exc = exc

    def __enter__(self):
        import matplotlib
        import matplotlib.pyplot as plt
        self.saved = [(matplotlib, 'get_backend', matplotlib.get_backend), (plt, 'show', plt.show)]
        if hasattr(plt, 'get_backend'):
            self.saved.append((plt, 'get_backend', plt.get_backend))
            plt.get_backend = lambda *a, **k: 'simulated'
        matplotlib.get_backend = lambda *a, **k: 'simulated'
        self.seen = []
        self.ended = 0

        def show(*a, **k):
            self.seen.append([[describe_axes(ax) for ax in plt.figure(n).axes] for n in plt.get_fignums()])
            if self.exc is not None:
                self.ended += 1
                raise self.exc('the user or the window system ends it')
            plt.close('all')
        plt.show = show
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)
        return False


class P04(FileBase):
    REAL = ['surfalize.cli show through click, surfalize.surface.Surface.load, operations, plot_2d and plotting.plot_3d, all '
            'readers, matplotlib']
    STUB = ['the raw layer of files (FileIO subclass following a fault plan)', 'the window system (plt.show, the name of the backend)',
            'pyvista (needs OpenGL)', "numpy's data allocator when an allocation failure is injected"]
    RULE = 'A run counts as non-trivial when a file was shown after it had been shown with other contents or options, or a fault was injected.'
    MUST_PROBE = ['shown', 'shown in 3d', 'refused options', 'failed', 'healed', 'changed file', 'read I/O error', 'operation',
                  'missing points', 'damaged', 'no window system', 'ended by force', 'upper case suffix']
    ASSUMPTIONS = ['matplotlib draws what it is told', 'no other process changes the file while the command runs',
                   'a renderer stands in for pyvista, plt.show() for the window system']

    def gen(self, rng, tier):
        files = []
        for i in range(rng.choice([1, 1, 2])):
            f = gen_rfile(rng, hi=14)
            f['spec'].update(ny=min(18, max(6, f['spec']['ny'])), nx=min(18, max(6, f['spec']['nx'])))
            f['name'] = rng.choice(['a', 'b', 'c.x', 'Ä ö', 'a.vk4', f'n{i}'])
            f['upper'] = rng.random() < 0.15
            files.append(f)
        calls = []
        for _ in range(rng.choice([1, 2, 3])):
            c = {'i': rng.randrange(len(files)), 'fill': rng.random() < 0.4, 'op': rng.choice(OPS), '3d': rng.random() < 0.3,
                 'rel': rng.random() < 0.3, 'window': rng.random() < 0.9}
            if rng.random() < 0.12:
                c['op'] = rng.choice(REFUSED)
            if rng.random() < 0.15 and not c['3d']:
                c['end'] = rng.choice(['interrupt', 'display'])
            r = rng.random()
            if r < 0.35:
                c['rfault'] = gen_rfault(rng)
            elif r < 0.5:
                c['damage'] = rng.choice(['garbage', 'empty', 'cut'])
            elif r < 0.75:
                c['change'] = rng.getrandbits(20)
            calls.append(c)
        return {'files': files, 'calls': calls}

    def shrink(self, case):
        for c in shrink_list(case['calls'], 1):
            yield with_(case, calls=c)
        for f in shrink_list(case['files'], 1):
            yield with_(case, files=f)
        for i, c in enumerate(case['calls']):
            rest = lambda x: case['calls'][:i] + [x] + case['calls'][i + 1:]
            for k in ('rfault', 'damage', 'change', 'end'):
                if k in c:
                    yield with_(case, calls=rest({q: v for q, v in c.items() if q != k}))
            for alt in ({'op': []}, {'fill': False}, {'rel': False}, {'3d': False}, {'window': True}):
                if any(c[k] != v for k, v in alt.items()):
                    yield with_(case, calls=rest(dict(c, **alt)))
        for i, f in enumerate(case['files']):
            for alt in ({'nan': 0.0}, {'ny': 6, 'nx': 6}, {'kind': 'waves'}):
                if any(f['spec'].get(k) != v for k, v in alt.items()):
                    yield with_(case, files=case['files'][:i] + [dict(f, spec=dict(f['spec'], **alt))] + case['files'][i + 1:])

    @staticmethod
    def expect(rf, c):
        """The processed surface, or the exception that makes showing it impossible"""
        try:
            s = Surface.load(io.BytesIO(rf.bytes), format=rf.suffix)
            p = rf.problem(s)
            s = Surface(np.array(s.data), s.step_x, s.step_y)
            if c['fill']:
                s = s.fill_nonmeasured()
            if c['op']:
                n = c['op'][0].lstrip('-')
                n, a = NAMES.get(n, n), [float(x) for x in c['op'][1:]]
                if n in ('level', 'center', 'zero'):
                    s = getattr(s, n)()
                elif n == 'threshold':
                    s = s.threshold(tuple(a)).fill_nonmeasured()
                elif n == 'remove-outliers':
                    s = s.remove_outliers(n=int(a[0])).fill_nonmeasured()
                elif n == 'bandpass':
                    s = s.filter('bandpass', a[0], a[1])
                else:
                    s = s.filter(n, a[0])
            return np.array(s.data), s.width_um, s.height_um, p
        except Exception as e:
            return e

    def run(self, case, ctx):
        import matplotlib
        import matplotlib.pyplot as plt
        from click.testing import CliRunner
        from surfalize.cli import cli
        warnings.simplefilter('ignore')
        src = os.path.join(ctx.tmp, 'd', 'in')
        os.makedirs(src)
        os.chdir(ctx.tmp)
        if any(c.get('rfault', {}).get('kind') == 'alloc' for c in case['calls']):
            faultalloc.install()
        rfs = {}
        for f in case['files']:
            rf = RFile(f)
            if rf.suffix in supported_formats_read:
                if f['upper']:
                    ctx.probe('upper case suffix')
                rfs[f['name'] + (rf.suffix.upper() if f['upper'] else rf.suffix)] = rf
        for name, rf in rfs.items():
            with open(os.path.join(src, name), 'wb') as fh:
                fh.write(rf.bytes)
        names = sorted(rfs)
        self.rc = dict(matplotlib.rcParams)
        self.seen = {}
        n = 0
        for k, c in enumerate(case['calls']):
            name = names[c['i'] % len(names)]
            if 'change' in c:
                old = rfs[name].c
                rf = RFile(dict(old, spec=dict(old['spec'], seed=c['change']), sx=old['sx'] * 1.5))
                rfs[name] = rf
                with open(os.path.join(src, name), 'wb') as fh:
                    fh.write(rf.bytes)
                if name in self.seen:
                    ctx.probe('changed file')
            for heal in (False, True):
                n += self.call(ctx, CliRunner, cli, c, heal, src, name, rfs[name], k)
                plt.close('all')
                if not any(q in c for q in ('rfault', 'damage', 'end')):
                    break
        ctx.nontrivial = bool(ctx.nontrivial or ctx.faults)
        ctx.key = [short_hash(case['files']), short_hash(case['calls'])]
        ctx.sample = {'shown': n}

    def call(self, ctx, CliRunner, cli, c, heal, src, name, rf, k):
        import matplotlib
        import matplotlib.pyplot as plt
        path = os.path.join(src, name)
        faulty = {q: c[q] for q in ('rfault', 'damage') if q in c} if not heal else {}
        e = self.expect(rf, c) if c['op'] not in REFUSED else ValueError('refused')
        content = rf.bytes
        if 'damage' in faulty:
            ctx.fault('damaged source')
            ctx.probe('damaged')
            content = {'garbage': bytes((i * 7 + 13) & 255 for i in range(400)), 'empty': b'', 'cut': content[:len(content) // 2]}[faulty['damage']]
        with open(path, 'wb') as fh:
            fh.write(content)
        args = ['show', os.path.relpath(path, ctx.tmp) if c['rel'] else path] + (['-fn'] if c['fill'] else []) + c['op'] + \
            (['--plot-3d'] if c['3d'] else [])
        if c['op']:
            ctx.probe('operation')
        if np.isnan(rf.data).any():
            ctx.probe('missing points')
        before = P01.tree(ctx.tmp)
        plan, fl = None, None
        import contextlib
        end = {'interrupt': KeyboardInterrupt, 'display': RuntimeError}[c['end']] if 'end' in c and not heal else None
        with Disk(os.path.join(ctx.tmp, 'd')) as disk, Renderer() as ren, (Windows(end) if c['window'] else contextlib.nullcontext()) as win:
            if 'rfault' in faulty:
                f = faulty['rfault']
                if f['kind'] == 'alloc':
                    fl = faultalloc.failing(f['n'], sticky=f['sticky'], min_size=f['min'])
                else:
                    plan = Plan(ctx, f)
                    if f['kind'] == 'eio-read':
                        plan.spec = dict(f, at=int(f['x'] * len(rf.bytes)))
                    disk.rules[os.path.realpath(path)] = plan
            with fl or contextlib.nullcontext():
                r = CliRunner().invoke(cli, args)
            if plan is not None:
                plan.heal()
        if fl is not None and fl.failed:
            ctx.fault('allocation fails')
        where = f'call {k} {args} with {faulty or "no fault"}' + (' and the window ended by force' if end else '')
        ended = win is not None and win.ended
        if ended:
            ctx.fault('window ended by ' + c['end'])
            ctx.probe('ended by force')
        shown = []
        if c['3d']:
            shown = [('3d', s) for s in ren.scenes if any(q[0] == 'show' for q in s['calls'])]
        elif win is not None:
            shown = [('2d', fig) for figs in win.seen for fig in figs]
        ctx.event(k, heal, r.exit_code, type(r.exception).__name__, len(shown), [arr_digest(s['mesh'][2]) if w == '3d' else len(s) for w, s in shown])
        if P01.tree(ctx.tmp) != before:
            ctx.violate('files-changed', where)
        if dict(matplotlib.rcParams) != self.rc:
            ctx.violate('settings-changed', where)
        if not faulty and c['op'] in REFUSED:
            ctx.probe('refused options')
            if r.exit_code == 0 or shown:
                ctx.violate('options-ignored', f'{where}: exit status {r.exit_code}, {len(shown)} plots shown')
            return 0
        if r.exit_code != 0:
            ctx.probe('failed')
            if not faulty and not isinstance(e, Exception) and not ended:
                ctx.violate('refused', f'{where}: exit status {r.exit_code}, {exc_text(r.exception)}; output: {r.output[:300]}')
        elif c['op'] in REFUSED:
            ctx.violate('options-ignored', where)
        elif isinstance(e, Exception):
            ctx.violate('shown-although-impossible', f'{where}: processing the file raises {exc_text(e)}')
        elif faulty.get('damage') in ('garbage', 'empty') and rf.fmt != 'xyz':         # (a cut behind the heights is harmless)
            ctx.violate('damaged-shown', f'{where}: exit status 0, {len(shown)} plots shown')
        elif not c['window'] and not c['3d']:
            ctx.probe('no window system')
            if 'backend' not in r.output:
                ctx.violate('nothing-shown', f'{where}: exit status 0 without a window and without saying so')
        elif 'backend' not in r.output or c['3d']:
            if heal:
                ctx.probe('healed')
            if len(shown) != 1:
                ctx.violate('nothing-shown' if not shown else 'shown-twice', f'{where}: exit status 0, {len(shown)} plots shown')
        for w, s in shown:
            ctx.probe('shown' if w == '2d' else 'shown in 3d')
            key = (c['fill'], repr(c['op']), c['3d'], arr_digest(rf.data))
            if name in self.seen and self.seen[name] != key:
                ctx.nontrivial = True
            self.seen[name] = key
            if isinstance(e, Exception) or 'damage' in faulty and (rf.fmt in ('xyz', 'fits') or faulty['damage'] != 'cut'):
                continue
            p = self.problem(w, s, e)
            if p:
                ctx.violate('wrong-plot', f'{where}: {p}')
        return len(shown)

    @staticmethod
    def problem(w, s, e):
        data, width, height, p = e
        if p:
            return p
        tol = 1e-9 * float(np.nanmax(np.abs(data), initial=0)) + 1e-12
        if w == '3d':
            x, y, z = s['mesh']
            extent = [float(x.min()), float(x.max()), float(y.min()), float(y.max())]
        else:
            if not s or not s[0]['images']:
                return 'the window shows no topography'
            z = s[0]['images'][-1]['array']
            extent = s[0]['images'][-1]['extent']
        if z.shape != data.shape or not np.allclose(z, data, rtol=1e-6, atol=tol, equal_nan=True):
            return 'other heights are shown than those of the processed file'
        if not np.allclose(extent, [0, width, 0, height], rtol=1e-6, atol=1e-12):
            return f'extent {extent} instead of {width} x {height}'
        return None
