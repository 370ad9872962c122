"""
The report command: real command, real PDF writer and real 2D plot, with the disk and the 3D renderer (OpenGL) simulated.
"""
import io
import os
import re
import subprocess
import warnings
import zlib

import numpy as np

import gen
from disk import Disk, Plan, file_size_limit
from util import exc_text, shrink_list, with_, short_hash
from s_file import FileBase, RFile, gen_rfile, gen_rfault
from s_misc import P01

from surfalize import Surface
from surfalize.file import supported_formats_read

SPATIAL = ['Sa', 'Sq', 'Sv', 'Sp', 'Sz']
FUNCTIONAL = ['Sk', 'Spk', 'Svk']
PERIODIC = ['Period', 'Depth', 'Aspect ratio', 'Homogeneity']


class Stage:
    """Renderers and viewers the command meets: records what they were given."""

    def __init__(self):
        self.flat = []
        self.solid = []
        self.opened = []

    def __enter__(self):
        import matplotlib.figure
        import PIL.Image
        import surfalize.plotting
        import surfalize.surface
        self.saved = []

        def patch(obj, name, new):
            if hasattr(obj, name):
                self.saved.append((obj, name, getattr(obj, name)))
                setattr(obj, name, new)

        real = matplotlib.figure.Figure.savefig

        def savefig(fig, *a, **k):
            k['dpi'] = 12                       # real rendering, at a small size
            for ax in fig.axes:
                if ax.images:
                    self.flat.append(np.ma.filled(np.ma.asarray(ax.images[0].get_array(), dtype='f8'), np.nan))
                    break
            return real(fig, *a, **k)

        def plot_3d(surface, *a, **k):
            self.solid.append(np.array(surface.data, dtype='f8'))
            return PIL.Image.new('RGB', (4, 3), (200, 100, 50))

        def run(args, *a, **k):
            self.opened.append(args)
            return subprocess.CompletedProcess(args, 0)

        patch(matplotlib.figure.Figure, 'savefig', savefig)
        patch(surfalize.plotting, 'plot_3d', plot_3d)
        patch(surfalize.surface, 'plot_3d', plot_3d)
        patch(subprocess, 'run', run)
        return self

    def __exit__(self, *a):
        for obj, name, old in reversed(self.saved):
            setattr(obj, name, old)
        return False


def pdf_text(path):
    """-> the strings a PDF shows, in order; raises ValueError for a file that is not a complete PDF"""
    with open(path, 'rb') as f:
        b = f.read()
    if not b.startswith(b'%PDF-') or not b.rstrip().endswith(b'%%EOF'):
        raise ValueError('not a complete PDF file')
    m = re.search(rb'startxref\s+(\d+)\s+%%EOF\s*$', b)
    if m is None or not b[int(m.group(1)):].lstrip().startswith(b'xref'):
        raise ValueError('the PDF has no cross-reference table where its end says')
    out, images = [], 0
    pos = 0
    while True:
        i = b.find(b'stream\n', pos)
        if i < 0:
            break
        head = b[b.rfind(b'obj', 0, i):i]
        n = int(re.search(rb'/Length (\d+)', head).group(1))
        body = b[i + 7:i + 7 + n]
        pos = i + 7 + n
        if not b[pos:].lstrip().startswith(b'endstream'):
            raise ValueError('a stream of the PDF does not have its stated length')
        pos = b.find(b'endstream', pos) + 9
        if b'/Image' in head:
            images += 1
            continue
        if b'FlateDecode' in head:
            body = zlib.decompress(body)
        for s in re.findall(rb'\(((?:[^()\\]|\\.)*)\) Tj', body, re.S):
            out.append(re.sub(rb'\\(.)', rb'\1', s, flags=re.S).decode('latin1'))
    return out, images


class P02(FileBase):
    REAL = ['surfalize.cli report through click, surfalize.surface.Surface.load, operations and parameters, plot_2d through '
            'matplotlib, fpdf']
    STUB = ['the raw layer of files (FileIO subclass following a fault plan)', 'file size limit',
            'the 3D renderer (needs OpenGL)', 'the PDF viewer']
    RULE = 'A run counts as non-trivial when several reports were made or a fault was injected.'
    MUST_PROBE = ['single file', 'directory', 'reported', 'failed', 'same stem', 'disk full', 'read I/O error', 'healed',
                  'periodic', 'operation', 'foreign files', 'upper case suffix', 'report left behind']
    ASSUMPTIONS = FileBase.ASSUMPTIONS + ['no other process changes the directory while the command runs']

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2, 2, 3])
        files = []
        for i in range(n):
            f = gen_rfile(rng, hi=14)
            f['spec'].update(ny=min(18, max(9, f['spec']['ny'])), nx=min(18, max(9, f['spec']['nx'])))
            if f['spec']['kind'] in ('const', 'zero') and rng.random() < 0.8:
                f['spec']['kind'] = 'waves'
            f['name'] = rng.choice(['a', 'a', 'b', 'c.x', 'Ä ö', 'a.vk4', '(b)', f'n{i}'])
            f['upper'] = rng.random() < 0.15
            files.append(f)
        calls = []
        for _ in range(rng.choice([1, 1, 2])):
            c = {'dir': rng.random() < 0.6, 'i': rng.randrange(n), 'on': rng.randrange(n), 'rel': rng.random() < 0.2,
                 'fill': rng.random() < 0.7, 'pp': rng.random() < 0.15, 'open': rng.random() < 0.2}
            c['op'] = rng.choice([None, None, ['--level'], ['-c'], ['-z'], ['--highpass', '4'], ['-lp', '3'],
                                  ['--bandpass', '2', '6'], ['-t', '5', '2'], ['--remove-outliers', '2']])
            r = rng.random()
            if r < 0.3:
                c['wfault'] = self.gen_wf(rng)
            elif r < 0.45:
                c['rfault'] = gen_rfault(rng, alloc=False)
            elif r < 0.55:
                c['damage'] = rng.choice(['garbage', 'empty'])
            if rng.random() < 0.3:
                c['left'] = rng.choice(['long', 'torn'])
            calls.append(c)
        return {'files': files, 'calls': calls, 'foreign': rng.random() < 0.3}

    def gen_wf(self, rng):
        n = rng.choice([0, 1, rng.randrange(0, 3000), rng.randrange(0, 12000)])
        r = rng.random()
        if r < 0.4:
            return {'kind': 'enospc', 'at': n}
        if r < 0.55:
            return {'kind': 'eio-write', 'call': 0, 'times': rng.choice([1, 1 << 30])}
        if r < 0.65:
            return {'kind': 'short-write', 'seed': rng.getrandbits(16)}
        if r < 0.8:
            return {'kind': 'close', 'lost': rng.choice([0, 1, 100])}
        if r < 0.85:
            return {'kind': 'open', 'times': 1, 'errno': rng.choice(['EMFILE', 'EACCES', 'EROFS', 'EIO', 'ENOSPC', 'EPERM'])}
        return {'kind': 'rlimit', 'at': n}

    def shrink(self, case):
        for c in shrink_list(case['calls'], 1):
            yield with_(case, calls=c)
        for f in shrink_list(case['files'], 1):
            yield with_(case, files=f)
        if case['foreign']:
            yield with_(case, foreign=False)
        for i, c in enumerate(case['calls']):
            rest = lambda x: case['calls'][:i] + [x] + case['calls'][i + 1:]
            for k in ('wfault', 'rfault', 'damage', 'left'):
                if k in c:
                    yield with_(case, calls=rest({q: v for q, v in c.items() if q != k}))
            for alt in ({'pp': False}, {'open': False}, {'rel': False}, {'op': None}, {'fill': True}):
                if any(c[k] != v for k, v in alt.items()):
                    yield with_(case, calls=rest(dict(c, **alt)))
        for i, f in enumerate(case['files']):
            s = f['spec']
            for alt in ({'nan': 0.0}, {'ny': 9, 'nx': 9}, {'kind': 'waves'}):
                if any(s.get(k) != v for k, v in alt.items()):
                    yield with_(case, files=case['files'][:i] + [dict(f, spec=dict(s, **alt))] + case['files'][i + 1:])

    def run(self, case, ctx):
        from click.testing import CliRunner
        from surfalize.cli import cli
        import matplotlib.pyplot as plt
        warnings.simplefilter('ignore')
        src = os.path.join(ctx.tmp, 'd', 'in')
        os.makedirs(src)
        os.chdir(ctx.tmp)
        self.known = {}
        rfs = {}
        for f in case['files']:
            rf = RFile(f)
            if rf.suffix not in supported_formats_read:
                continue
            if f['upper']:
                ctx.probe('upper case suffix')
            rfs[f['name'] + (rf.suffix.upper() if f['upper'] else rf.suffix)] = rf
        for name, rf in rfs.items():
            with open(os.path.join(src, name), 'wb') as fh:
                fh.write(rf.bytes)
        if case['foreign']:
            ctx.probe('foreign files')
            with open(os.path.join(src, 'readme.txt'), 'w') as fh:
                fh.write('not a surface')
            os.makedirs(os.path.join(src, 'sub.sur'))
            with open(os.path.join(src, 'a.pdf'), 'w') as fh:
                fh.write('some other document')
        names = sorted(rfs)
        total = 0
        for k, c in enumerate(case['calls']):
            for heal in (False, True):
                total += self.call(ctx, CliRunner, cli, c, heal, src, rfs, names, k, case['foreign'])
                plt.close('all')
                if not any(q in c for q in ('wfault', 'rfault', 'damage')):
                    break
        ctx.nontrivial = total > 1 or bool(ctx.faults)
        ctx.key = [short_hash(case['files']), short_hash(case['calls'])]
        ctx.sample = {'reports': total}

    @staticmethod
    def expect(rf, c):
        """-> (heights, {label: value or None}) of the processed surface, or the exception that makes a report impossible"""
        try:
            s = Surface.load(io.BytesIO(rf.bytes), format=rf.suffix)
            s = Surface(np.array(s.data), s.step_x, s.step_y)
            if c['fill']:
                s = s.fill_nonmeasured()
            op = c['op'] and [c['op'][0].lstrip('-')] + [float(x) for x in c['op'][1:]]
            if op:
                n, a = {'c': 'center', 'z': 'zero', 'lp': 'lowpass', 't': 'threshold'}.get(op[0], op[0]), op[1:]
                if n in ('level', 'center', 'zero'):
                    s = getattr(s, n)()
                elif n == 'threshold':
                    s = s.threshold(tuple(a)).fill_nonmeasured()
                elif n == 'remove-outliers':
                    s = s.remove_outliers(n=int(a[0])).fill_nonmeasured()
                elif n == 'bandpass':
                    s = s.filter('bandpass', a[0], a[1])
                else:
                    s = s.filter(n, a[0])
            fresh = lambda: Surface(np.array(s.data), s.step_x, s.step_y)
            one = fresh()               # (the functional parameters share one curve, which is costly)
            vals = {p: getattr(one if p in FUNCTIONAL else fresh(), p)() for p in SPATIAL + FUNCTIONAL}
            one.roughness_parameters()
            if c['pp']:
                vals.update({'Period': fresh().period(), 'Depth': fresh().depth()[0],
                             'Aspect ratio': fresh().aspect_ratio(), 'Homogeneity': fresh().homogeneity()})
            return np.array(s.data), vals
        except Exception as e:
            return e

    def call(self, ctx, CliRunner, cli, c, heal, src, rfs, names, k, foreign):
        victim = names[c['on'] % len(names)]
        faulty = {q: c[q] for q in ('wfault', 'rfault', 'damage') if q in c} if not heal else {}
        vpath = os.path.join(src, victim)
        damaged = None
        if 'damage' in faulty:
            damaged = {'garbage': bytes((i * 7 + 13) & 255 for i in range(400)), 'empty': b''}[faulty['damage']]
            ctx.fault('damaged source')
        with open(vpath, 'wb') as fh:
            fh.write(rfs[victim].bytes if damaged is None else damaged)
        if c['dir']:
            ctx.probe('directory')
            target, want = src, set(names)
        else:
            ctx.probe('single file')
            single = names[c['i'] % len(names)]
            target, want = os.path.join(src, single), {single}
        args = ['report', os.path.relpath(target, ctx.tmp) if c['rel'] else target]
        if c['fill']:
            args.append('-fn')
        if c['op']:
            args += c['op']
            ctx.probe('operation')
        if c['pp']:
            args.append('-pp')
            ctx.probe('periodic')
        if c['open']:
            args.append('--open-after')
        for p in os.listdir(src):
            if p.endswith('.pdf') and p != 'a.pdf':
                os.remove(os.path.join(src, p))
        if 'left' in c:
            ctx.probe('report left behind')
            for n in want:
                with open(os.path.join(src, n + '.pdf'), 'wb') as fh:
                    fh.write(b'%PDF-1.3\n' + b'x' * (90000 if c['left'] == 'long' else 50))
        stems = [os.path.splitext(n)[0] for n in names]
        if c['dir'] and len(set(stems)) < len(stems):
            ctx.probe('same stem')
        for n in sorted(want):
            key = (n, c['fill'], repr(c['op']), c['pp'])
            if key not in self.known:
                self.known[key] = self.expect(rfs[n], c)
        expected = {n: self.known[(n, c['fill'], repr(c['op']), c['pp'])] for n in sorted(want)}
        before = {p: b for p, b in P01.tree(src).items() if not p.endswith('.pdf') or p.endswith(os.sep + 'a.pdf')}
        plan, rl = None, None
        with Disk(os.path.join(ctx.tmp, 'd')) as disk, Stage() as stage:
            if 'rfault' in faulty:
                f = faulty['rfault']
                plan = Plan(ctx, f)
                if f['kind'] == 'eio-read':
                    plan.spec = dict(f, at=int(f['x'] * len(rfs[victim].bytes)))
                disk.rules[os.path.realpath(vpath)] = plan
            elif 'wfault' in faulty:
                f = faulty['wfault']
                if f['kind'] == 'rlimit':
                    rl = f['at']
                else:
                    plan = Plan(ctx, f)
                    n = [0]
                    real = disk.plan_for

                    def plan_for(file, mode, real=real):
                        if real(file, mode) is None and not any(x in mode for x in 'wax+'):
                            return None
                        try:
                            p = os.path.realpath(os.fspath(file))
                        except TypeError:
                            return None
                        if not p.startswith(disk.root + os.sep):
                            return None
                        n[0] += 1
                        return plan if c['on'] % 2 or n[0] == 1 + c['on'] // 2 else None
                    disk.plan_for = plan_for
            if rl is not None:
                with file_size_limit(rl):
                    r = CliRunner().invoke(cli, args)
            else:
                r = CliRunner().invoke(cli, args)
            if plan is not None:
                plan.heal()
        where = f'call {k} {args} with {faulty or "no fault"}'
        text = r.output
        done = re.findall(r'^PDF report created: (.+)$', text, re.M)
        ctx.event(k, heal, r.exit_code, type(r.exception).__name__, sorted(os.path.basename(a) for a in done))
        if rl is not None and r.exit_code != 0:
            ctx.fault('file size limit')
        after = {p: b for p, b in P01.tree(src).items() if p in before}
        if after != before:
            ctx.violate('source-changed', where)
        impossible = {n: e for n, e in expected.items() if isinstance(e, Exception)}
        made = {os.path.basename(a)[:-4]: a for a in done}
        if len(made) < len(done):
            ctx.violate('overwritten', f'{where}: {done}')
        if r.exit_code == 0:
            ctx.probe('reported')
            if heal:
                ctx.probe('healed')
            if set(made) != want:
                ctx.violate('not-all-reported', f'{where}: exit status 0, reports on {sorted(made)} of {sorted(want)}')
        else:
            ctx.probe('failed')
            if not faulty and not impossible:
                ctx.violate('refused', f'{where}: exit status {r.exit_code}, {exc_text(r.exception)}; output: {text[:300]}')
        for n, path in made.items():
            if n not in want:
                ctx.violate('reported-what', f'{where}: {path}')
                continue
            if damaged is not None and n == victim:
                if rfs[n].fmt not in ('xyz', 'fits'):
                    ctx.violate('acknowledged-but-wrong', f'{where}: a report on the damaged source {n} was made')
                continue
            if n in impossible:
                ctx.violate('acknowledged-but-wrong', f'{where}: a report on {n} was made, but its parameters cannot be '
                            f'calculated: {exc_text(impossible[n])}')
                continue
            p = self.problem(path, n, expected[n], c, stage)
            if p:
                ctx.violate('acknowledged-but-wrong', f'{where}: {os.path.basename(path)}: {p}')
        if c['open'] and r.exit_code == 0:
            shown = {os.path.basename(str(a[-1])) for a in stage.opened if isinstance(a, (list, tuple))}
            if shown and shown != {os.path.basename(a) for a in done}:
                ctx.violate('opened-what', f'{where}: opened {sorted(shown)}')
        return len(done)

    @staticmethod
    def problem(path, name, e, c, stage):
        data, vals = e
        if not os.path.exists(path):
            return 'the report does not exist'
        try:
            text, images = pdf_text(path)
        except (ValueError, zlib.error, AttributeError) as x:
            return f'the report is broken: {exc_text(x)}'
        if not any(name in t for t in text):
            return f'the report does not name its file: {text[:3]}'
        if images < 2:
            return f'the report has {images} images'
        tol = 1e-9 * float(np.nanmax(np.abs(data), initial=0)) + 1e-12
        same = lambda a: a.shape == data.shape and np.allclose(a, data, rtol=0, atol=tol, equal_nan=True)
        if not any(same(a) for a in stage.solid):
            return 'no 3D plot was made of the processed surface'
        if not any(same(a) for a in stage.flat):
            return 'no 2D plot was made of the processed surface'
        want = SPATIAL + FUNCTIONAL + (PERIODIC if c['pp'] else [])
        for p in want:
            if p not in text:
                return f'{p} is missing'
            if text.count(p) > 1:
                return f'{p} occurs {text.count(p)} times'
            i = text.index(p) + 1
            w = float(vals[p])
            ok = False
            for j in range(1, 5):               # a long number is broken into several lines
                try:
                    v = float(''.join(text[i:i + j]))
                except ValueError:
                    continue
                if np.isnan(v) and np.isnan(w) or v == w or abs(v - w) <= 0.00051 + 1e-6 * abs(w):
                    ok = True
            if not ok:
                return f'{p} is given as {text[i:i + 2]} instead of {w:.5f}'
        return None
