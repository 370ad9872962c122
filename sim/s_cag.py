"""
Extraction of measurements from archives: real zipfile on the simulated raw disk layer, several threads.
"""
import io
import os
import random
import re
import threading
import zipfile
from pathlib import Path

import simsched
from disk import Disk, Plan, file_size_limit
from util import exc_text, shrink_list, with_, short_hash, new_sim
from s_file import FileBase, gen_rfault
from s_misc import P01

from surfalize.file.cag import extract_cag

NAMES = ['a.vk4', 'b.vk6', 'sample 1.vk7', 'Ä ö.vk4', 'a b (2).vk4', 'x.y.vk3', 'noext', 'a.vk4', 'R&D <1>.vk4']
DIRS = ['', '', '', 'C:\\measured\\today\\', 'D:\\', '/home/me/', 'sub/']


def content(e):
    r = random.Random(e['seed'])
    return e['magic'].encode() + b'_' + (r.randbytes(e['n'] // 2) + b'\0' * (e['n'] - e['n'] // 2))


def escaped(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def build(a):
    """-> bytes of the archive, [(name, content), ...]"""
    r = random.Random(a['seed'])
    group = r.choice(['File', 'a/b', '0001'])
    ids = [f'{r.getrandbits(32):08x}' if r.random() < 0.7 else f'{i}' for i in range(len(a['entries']))]
    index = '<?xml version="1.0" encoding="utf-8"?>\n<Index>\n'
    want = []
    items = []
    for i, e in zip(ids, a['entries']):
        b = content(e)
        want.append((e['name'], b))
        index += f'  <Item>\n    <Path>{i}</Path>\n    <OriginalFileName>{escaped(e["dir"] + e["name"])}</OriginalFileName>\n  </Item>\n'
        items.append((f'{group}/{i}/{r.choice(["data", "file.vk4"])}', b))
        if e.get('more'):
            items.append((f'{group}/{i}/thumb.bmp', b'BM' + r.randbytes(60)))
    index += '</Index>\n'
    extra = [('readme.txt', b'text'), ('empty', b''), ('VK4/notes', b'not VK4_'), ('top/deep/er/x', b'12')]
    items += r.sample(extra, a['extra'])
    items.append((f'{group}/index.xml', index.encode()))
    r.shuffle(items)
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w') as z:
        if a['dirs']:
            for d in sorted({os.path.dirname(n) for n, _ in items} - {''}):
                z.writestr(zipfile.ZipInfo(d + '/'), b'')
        for n, b in items:
            z.writestr(zipfile.ZipInfo(n, (2024, 1, 2, 3, 4, 6)), b, zipfile.ZIP_STORED if a['stored'] else zipfile.ZIP_DEFLATED)
    return f.getvalue(), want


class P03(FileBase):
    REAL = ['surfalize.file.cag.extract_cag, zipfile, buffered files']
    STUB = ['the raw layer of files (FileIO subclass following a fault plan)', 'file size limit', 'thread scheduling']
    RULE = 'A run counts as non-trivial when several measurements were extracted or a fault was injected.'
    MUST_PROBE = ['extracted', 'failed', 'healed', 'new target', 'beside the archive', 'old files', 'damaged archive', 'read I/O error',
                  'disk full', 'interrupt', 'concurrent', 'same name', 'foreign entries']
    ASSUMPTIONS = ['the index lists each tag on a line of its own and is UTF-8', 'the bytes that identify a measurement are not the damaged ones']

    def gen_archive(self, rng):
        n = rng.choice([1, 2, 2, 3, 5])
        entries = []
        for i in range(n):
            name = rng.choice(NAMES)
            if rng.random() < 0.85:
                while name in [e['name'] for e in entries]:
                    name = f'{i}{name}'
            entries.append({'name': name, 'dir': rng.choice(DIRS), 'magic': rng.choice(['VK3', 'VK4', 'VK6', 'VK7']), 'more': rng.random() < 0.2,
                            'n': rng.choice([0, 1, 5, 600, 9000, 70000]), 'seed': rng.getrandbits(20)})
        return {'entries': entries, 'seed': rng.getrandbits(20), 'stored': rng.random() < 0.5, 'dirs': rng.random() < 0.3,
                'extra': rng.choice([0, 0, 2, 4])}

    def gen(self, rng, tier):
        arch = [self.gen_archive(rng) for _ in range(rng.choice([1, 1, 2]))]
        if len(arch) == 2 and rng.random() < 0.5:
            # another archive of the same size and structure
            arch[0]['stored'] = True
            arch[1] = dict(arch[0], entries=[dict(e, name=e['name'][:-1] + '3579'[i % 4], seed=e['seed'] + 1)
                                             for i, e in enumerate(arch[0]['entries'])])
        nt = rng.choice([1, 1, 1, 2, 3])
        threads = []
        for t in range(nt):
            acts = []
            same = rng.random() < 0.4
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = {'same': same, 'i': rng.randrange(len(arch)), 'target': rng.choice(['none', 'new', 'new', 'old']), 'as': rng.choice(['str', 'Path']),
                     'old': rng.random() < 0.3, 'on': rng.randrange(5)}
                r = rng.random()
                if r < 0.3:
                    a['wfault'] = P01.gen_wf(self, rng)
                    if a['wfault']['kind'] == 'eio-write' and rng.random() < 0.4:
                        a['wfault'].update(interrupt=True, times=1)
                    if 'at' in a['wfault'] and rng.random() < 0.5:
                        a['wfault']['at'] = rng.randrange(70000)
                    if a['wfault']['kind'] == 'rlimit' and nt > 1:
                        a['wfault'] = {'kind': 'enospc', 'at': a['wfault']['at']}
                elif r < 0.6:
                    a['rfault'] = gen_rfault(rng, alloc=False)
                elif r < 0.75:
                    a['damage'] = [rng.choice(['cut', 'cut', 'content']), rng.random(), rng.getrandbits(16)]
                acts.append(a)
            threads.append(acts)
        shared = nt > 1 and rng.random() < 0.5
        if shared:
            # archives with different contents into one new directory at once
            arch = [self.gen_archive(rng) for _ in range(nt)]
            for i, x in enumerate(arch):
                for e in x['entries']:
                    e['name'] = f'{i}{e["name"]}'
            for t in range(nt):
                threads[t][0].update(i=t, target='new')
        return {'archives': arch, 'threads': threads, 'shared': shared,
                'sched': simsched.draw_sched(rng, 400) if nt > 1 else {'mode': 'serial', 'tick': 1000}}

    def shrink(self, case):
        for i, t in enumerate(case['threads']):
            for x in shrink_list(t):
                yield with_(case, threads=case['threads'][:i] + [x] + case['threads'][i + 1:])
            for j, a in enumerate(t):
                for k in ('wfault', 'rfault', 'damage'):
                    if k in a:
                        b = {q: v for q, v in a.items() if q != k}
                        yield with_(case, threads=case['threads'][:i] + [t[:j] + [b] + t[j + 1:]] + case['threads'][i + 1:])
        for i, a in enumerate(case['archives']):
            rest = lambda x: case['archives'][:i] + [x] + case['archives'][i + 1:]
            for e in shrink_list(a['entries'], 1):
                yield with_(case, archives=rest(dict(a, entries=e)))
            for alt in ({'extra': 0}, {'dirs': False}, {'stored': True}):
                if any(a[k] != v for k, v in alt.items()):
                    yield with_(case, archives=rest(dict(a, **alt)))

    def run(self, case, ctx):
        root = os.path.join(ctx.tmp, 'd')
        os.makedirs(root)
        built = [build(a) for a in case['archives']]
        sim = new_sim(case, ctx)
        plain = True
        for t in case['threads']:
            for a in t:
                plain = plain and not any(k in a for k in ('wfault', 'rfault', 'damage', 'old'))
        for a in case['archives']:
            names = [e['name'] for e in a['entries']]
            if len(set(names)) < len(names):
                ctx.probe('same name')
            if a['extra']:
                ctx.probe('foreign entries')
        with Disk(root) as disk:
            def body(t):
                for j, a in enumerate(case['threads'][t]):
                    self.act(ctx, sim, disk, root, case, built, t, j, a)
            with sim:
                ths = [threading.Thread(target=body, args=(t,)) for t in range(1, len(case['threads']))]
                for th in ths:
                    th.start()
                body(0)
                for th in ths:
                    th.join()
                for th in ths:
                    if th._sim_t.exc is not None:
                        raise th._sim_t.exc
        if len(ths):
            ctx.probe('concurrent')
        ctx.key = [short_hash(case['archives']), short_hash(case['threads'])]
        ctx.sample = {'archives': len(built)}

    def act(self, ctx, sim, disk, root, case, built, t, j, a):
        with sim.untraced():
            data, want = built[a['i']]
            home = os.path.join(root, f'h{t}_' + ('' if a['same'] else f'{j}'))
            os.makedirs(home, exist_ok=True)
            path = os.path.join(home, 'archive.cag')
            shared = case['shared'] and j == 0
            target = {'none': home, 'old': os.path.join(root, f'old{t}_{j}'),
                      'new': os.path.join(root, 'shared' if shared else f'new{t}_{j}')}[a['target']]
            keep = {}
            if a['target'] == 'old':
                os.makedirs(target)
            if a['target'] != 'new':
                if a['old']:
                    ctx.probe('old files')
                    with open(os.path.join(target, want[0][0]), 'wb') as f:
                        f.write(b'\xa5' * 100000)
                with open(os.path.join(target, 'other.vk4'), 'wb') as f:
                    f.write(b'VK4_ other')
                keep['other.vk4'] = b'VK4_ other'
            conv = Path if a['as'] == 'Path' else str
            args = [conv(path)] + ([] if a['target'] == 'none' else [conv(target)])
            ctx.probe({'none': 'beside the archive', 'new': 'new target', 'old': 'old target'}[a['target']])
        for heal in (False, True):
            with sim.untraced():
                b = data
                plan = Plan(ctx, None)
                fired = False
                limit = None
                if not heal and 'damage' in a:
                    k, x, v = a['damage']
                    if k == 'cut':
                        b = data[:int(len(data) * x)]
                        fired = True
                    else:
                        c = want[v % len(want)][1]
                        at = data.find(c) if len(c) > 8 else -1
                        if at >= 0:
                            at += 5 + int(x * (len(c) - 5))
                            b = data[:at] + bytes([data[at] ^ (1 + v % 255)]) + data[at + 1:]
                            fired = True
                    if fired:
                        ctx.fault('damaged archive')
                        ctx.probe('damaged archive')
                with open(path, 'wb') as f:
                    f.write(b)
                if not heal and 'rfault' in a:
                    f = a['rfault']
                    plan = Plan(ctx, dict(f, at=int(f['x'] * len(b))) if f['kind'] == 'eio-read' else f)
                    disk.rules[os.path.realpath(path)] = plan
                elif not heal and 'wfault' in a:
                    f = a['wfault']
                    if f['kind'] == 'rlimit':
                        limit = f['at']
                    else:
                        plan = Plan(ctx, f)
                        disk.rules[os.path.join(os.path.realpath(target), want[a['on'] % len(want)][0])] = plan
            err = None
            try:
                if limit is not None:
                    with file_size_limit(limit):
                        extract_cag(*args)
                else:
                    extract_cag(*args)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            with sim.untraced():
                plan.heal()
                disk.rules.clear() if len(case['threads']) == 1 else None
                if limit is not None and err is not None:
                    ctx.fault('file size limit')
                    fired = True
                fired = fired or bool(plan.fired)
                ctx.nontrivial = ctx.nontrivial or fired or len(want) > 1
                where = f'thread {t} extraction {j} of {[(e["dir"] + e["name"], len(c)) for e, (n, c) in zip(case["archives"][a["i"]]["entries"], want)]} to {a["target"]} with ' \
                        f'{ {k: a[k] for k in ("wfault", "rfault", "damage") if k in a and not heal} or "no fault"}'
                ctx.event(t, j, heal, type(err).__name__)
                if err is not None:
                    ctx.probe('failed')
                    if not fired:
                        ctx.violate('refused' if not heal else 'not-recovered', f'{where}: {exc_text(err)}')
                else:
                    p = self.problem(target, want, keep)
                    if p:
                        ctx.violate('acknowledged-but-wrong' if not heal else 'not-recovered', f'{where}: {p}')
                    ctx.probe('extracted' if not heal else 'healed')
                with open(path, 'rb') as f:
                    if f.read() != b:
                        ctx.violate('archive-changed', where)
            if not any(k in a for k in ('wfault', 'rfault', 'damage')):
                break

    @staticmethod
    def problem(target, want, keep):
        got = {}
        for n in os.listdir(target):
            p = os.path.join(target, n)
            if os.path.isfile(p) and n != 'archive.cag':
                with open(p, 'rb') as f:
                    got[n] = f.read()
        names = [n for n, _ in want]
        for n, b in want:
            if names.count(n) == 1:
                if n not in got:
                    return f'{n!r} is missing (there are {sorted(got)[:9]})'
                if got[n] != b:
                    return f'{n!r} has {len(got[n])} bytes, recorded were {len(b)}{" others" if len(got[n]) == len(b) else ""}'
            elif b not in got.values():
                return f'one of several measurements called {n!r} is missing (there are {sorted(got)[:9]})'
        for n, b in keep.items():
            if got.get(n) != b:
                return f'{n!r}, which was there before, is not as it was'
        return None
