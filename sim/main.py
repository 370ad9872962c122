"""
Entry point:  main.py check <ID> | worker ... | replay <file> | selftest [ID...]
"""
import os
import sys
import json
import subprocess
import hashlib
import collections

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

from core import (REAL_TIME, REPO, run_case, case_rng, minimise, HarnessError)   # noqa: E402

NWORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
QUICK_S = float(os.environ.get('VERIF_QUICK_S', '32'))
THOROUGH_S = float(os.environ.get('VERIF_THOROUGH_S', '600'))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=<id> kind=<violation kind> case=<json file with the exact case> <what fails>
                d = {}
                rest = line[len('finding:'):].strip().split(' ')
                while rest and '=' in rest[0]:
                    k, v = rest.pop(0).split('=', 1)
                    d[k] = v
                d['what'] = ' '.join(rest)
                out.append(d)
    return out


def worker(prop, seed, tier, i, n, seconds, max_cases):
    import boot
    sc = boot.scenario(prop)
    out = sys.stdout
    t_end = REAL_TIME() + seconds
    agg = new_agg()
    idx = i
    done = 0
    while REAL_TIME() < t_end and done < max_cases:
        rng = case_rng(seed, prop, idx)
        case = sc.gen(rng, tier)
        try:
            res = run_case(sc, case)
            if res.get('wall_timeout'):
                res = run_case(sc, case)
                if res.get('wall_timeout'):
                    res = {'violations': [{'kind': 'no-progress',
                                           'detail': 'the run did not end within the wall-clock limit, twice'}]}
        except HarnessError as e:
            out.write(json.dumps({'error': str(e), 'index': idx, 'case': case}) + '\n')
            out.flush()
            return
        add_agg(agg, res, case, idx)
        done += 1
        if res['violations']:
            out.write(json.dumps({'violation': res['violations'], 'index': idx, 'case': case}) + '\n')
            out.flush()
            if agg['violations'] >= 3:
                break
        idx += n
    out.write(json.dumps({'agg': pack_agg(agg)}) + '\n')
    out.flush()


def new_agg():
    return {'runs': 0, 'nontrivial': 0, 'keys': set(), 'scheds': set(), 'faults': collections.Counter(),
            'fault_runs': collections.Counter(), 'probes': collections.Counter(), 'sim_ns': 0, 'points': 0,
            'switches': 0, 'violations': 0, 'samples': [], 'max_pairs': 0}


def add_agg(a, res, case, idx):
    a['runs'] += 1
    if res.get('nontrivial'):
        a['nontrivial'] += 1
        k = hashlib.blake2b(json.dumps([res.get('key'), res.get('sched')], sort_keys=True).encode(),
                            digest_size=8).hexdigest()
        a['keys'].add(k)
    if res.get('sched'):
        a['scheds'].add(res['sched'])
    a['faults'].update(res.get('faults', {}))
    a['fault_runs'].update({k: 1 for k in res.get('faults', {})})
    a['probes'].update(res.get('probes', {}))
    a['sim_ns'] += res.get('sim_ns', 0)
    a['points'] += res.get('points', 0)
    a['switches'] += res.get('switches', 0)
    a['max_pairs'] = max(a['max_pairs'], res.get('pairs', 0))
    a['violations'] += 1 if res['violations'] else 0
    if len(a['samples']) < 1 and res.get('nontrivial'):
        c = json.dumps(case, default=str)
        a['samples'].append({'index': idx, 'case': json.loads(c) if len(c) < 3000 else c[:3000],
                             'events': res.get('events'), 'schedule': res.get('sched'),
                             'observed': res.get('sample')})


def pack_agg(a):
    b = dict(a)
    b['keys'] = sorted(a['keys'])
    b['scheds'] = sorted(a['scheds'])
    return b


def merge(a, b):
    for k in ('runs', 'nontrivial', 'sim_ns', 'points', 'switches', 'violations'):
        a[k] += b[k]
    a['keys'] |= set(b['keys'])
    a['scheds'] |= set(b['scheds'])
    for k in ('faults', 'probes', 'fault_runs'):
        a[k].update(b[k])
    a['max_pairs'] = max(a['max_pairs'], b['max_pairs'])
    a['samples'] += b['samples']


def write_evidence(prop, sc, tier, seed, agg, wall, nviol, extra=None):
    path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['keys']),
        'rule': sc.RULE + ' Distinct: different (workload, fault and outcome key, executed interleaving) hash.',
        'samples': agg['samples'][:3],
        'nontrivial_runs': agg['nontrivial'],
        'runs_per_hour': round(agg['runs'] / max(wall, 1e-3) * 3600),
        'seeds_per_hour': round(agg['runs'] / max(wall, 1e-3) * 3600),
        'seed_note': 'every run has its own seed derived from (VERIF_SEED, property, run index)',
        'simulated_seconds': round(agg['sim_ns'] / 1e9, 3),
        'scheduling_points': agg['points'],
        'context_switches': agg['switches'],
        'distinct_interleavings': len(agg['scheds']),
        'interleaving_measure': 'hash of the executed sequence of (from thread, to thread, code location) switches',
        'faults_injected': dict(sorted(agg['faults'].items())),
        'runs_with_fault': dict(sorted(agg['fault_runs'].items())),
        'reach_probes': dict(sorted(agg['probes'].items())),
        'real_components': sc.REAL,
        'stub_components': sc.STUB,
    }
    if extra:
        cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': sc.LEVEL, 'coverage': cov,
          'assumptions': sc.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol}
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')


def fresh_replay(path):
    """Replays in a new interpreter. Returns (kinds, events digest) or None."""
    p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'main.py'), 'replay', path, '--json'],
                       capture_output=True, text=True)
    for line in p.stdout.splitlines():
        if line.startswith('{'):
            r = json.loads(line)
            return sorted({v['kind'] for v in r['violations']}), r.get('events')
    return None


def check(prop):
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = REAL_TIME()
    seconds = QUICK_S if tier == 'quick' else THOROUGH_S
    print(f'simulation {prop}: VERIF_SEED={seed} tier={tier} workers={NWORKERS} budget={seconds:.0f}s', flush=True)
    # once before the workers: fills matplotlib's font cache
    subprocess.run([sys.executable, '-B', '-c', 'import matplotlib.pyplot'], capture_output=True)
    if prop == 'D01':
        import envproc
        envproc.start_all()
    procs = []
    for i in range(NWORKERS):
        procs.append(subprocess.Popen(
            [sys.executable, '-B', os.path.join(HERE, 'main.py'), 'worker', prop, str(seed), tier, str(i),
             str(NWORKERS), str(seconds), os.environ.get('VERIF_MAX_CASES', '100000000')],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    agg = new_agg()
    viols = []
    errors = []
    import threading
    lock = threading.Lock()

    def reader(p):
        for line in p.stdout:
            try:
                m = json.loads(line)
            except ValueError:
                continue
            with lock:
                if 'violation' in m:
                    viols.append(m)
                elif 'error' in m:
                    errors.append(m['error'] + '\ncase: ' + json.dumps(m['case'])[:2000])
                elif 'agg' in m:
                    merge(agg, m['agg'])
                    p.reported = True
    ths = []
    errtxt = {}

    def errreader(p):
        errtxt[p.pid] = p.stderr.read()
    for p in procs:
        p.reported = False
        th = threading.Thread(target=reader, args=(p,))
        th.start()
        ths.append(th)
        th = threading.Thread(target=errreader, args=(p,))
        th.start()
        ths.append(th)
    known = [k for k in load_known() if k.get('property') == prop]
    import time
    stop_at = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.2)
        with lock:
            have = len(viols)
        if have and stop_at is None:
            stop_at = REAL_TIME() + 2
        if stop_at is not None and REAL_TIME() > stop_at:
            for p in procs:
                if p.poll() is None:
                    p.terminate()
            break
    for p in procs:
        p.wait()
    for th in ths:
        th.join()
    sweep_scratch([p.pid for p in procs])
    wall = REAL_TIME() - t0

    import boot
    sc = boot.scenario(prop)
    nk = 0
    for k in known:
        res = run_case(sc, json.load(open(os.path.join(VERIF, k['case'])))['case'])
        if any(v['kind'] == k['kind'] for v in res['violations']):
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
            nk += 1
    if viols:
        viols.sort(key=lambda m: m['index'])
        m = viols[0]
        kind = m['violation'][0]['kind']
        print(f'violation at run index {m["index"]}: {kind}: {m["violation"][0]["detail"]}', flush=True)
        small, res, tried = minimise(sc, m['case'], kind, seconds=float(os.environ.get('VERIF_MIN_S', '60')))
        detail = m['violation'][0]['detail']
        if res is not None:
            detail = [v for v in res['violations'] if v['kind'] == kind][0]['detail']
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{seed}-{m["index"]}.json')
        doc = {'property': prop, 'seed': seed, 'run_index': m['index'], 'kind': kind, 'detail': detail,
               'case': small, 'events': res.get('events') if res else None,
               'minimiser_runs': tried, 'unminimised_case': m['case']}
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
            f.write('\n')
        a, b = fresh_replay(path), fresh_replay(path)
        repro = a is not None and a == b and kind in a[0]
        print(f'minimised with {tried} runs; replay reproduces exactly in two fresh processes: {repro}')
        print(f'  {detail}')
        write_evidence(prop, sc, tier, seed, agg, wall, len(viols))
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        return 1
    if errors or any(p.returncode for p in procs) or not all(p.reported for p in procs):
        print('HARNESS ERROR', *errors[:2], sep='\n')
        for p in procs:
            if p.returncode:
                print(f'worker {p.pid} exit {p.returncode}: {errtxt.get(p.pid, "")[-3000:]}')
        return 2
    extra = {'known_findings_seen': nk} if known else None
    write_evidence(prop, sc, tier, seed, agg, wall, 0, extra)
    print(f'{agg["runs"]} runs, {len(agg["keys"])} distinct non-trivial, {len(agg["scheds"])} distinct interleavings, '
          f'{sum(agg["faults"].values())} faults injected, {agg["sim_ns"] / 1e9:.1f} simulated s, '
          f'{wall:.1f} s wall: no violation')
    low = [k for k in sc.MUST_PROBE if not agg['probes'].get(k) and not agg['faults'].get(k)]
    if low:
        print('note: never reached:', ', '.join(low))
    return 0


def sweep_scratch(pids):
    import shutil
    from core import scratch_root
    root = scratch_root()
    for n in os.listdir(root):
        if n.startswith('verif-sim-'):
            try:
                pid = int(n.rsplit('-', 1)[1])
            except ValueError:
                continue
            if not os.path.exists(f'/proc/{pid}'):
                shutil.rmtree(os.path.join(root, n), ignore_errors=True)


def replay(path, as_json):
    doc = json.load(open(path))
    import boot
    sc = boot.scenario(doc['property'])
    res = run_case(sc, doc['case'])
    if as_json:
        print(json.dumps({'violations': res['violations'], 'events': res.get('events')}))
    else:
        for v in res['violations']:
            print(f'{v["kind"]}: {v["detail"]}')
        if res.get('log'):
            print('\n'.join(res['log']))
        if any(v['kind'] == doc['kind'] for v in res['violations']):
            print(f'VIOLATION property={doc["property"]} replay={path}')
        else:
            print('the violation does not occur on this tree')
    return 1 if res['violations'] else 0


def digest(props, seed, start, count):
    """Prints one line per run: used by the determinism self-test."""
    import boot
    for prop in props:
        sc = boot.scenario(prop)
        for idx in range(start, start + count):
            case = sc.gen(case_rng(seed, prop, idx), 'quick')
            r = run_case(sc, case)
            print(prop, idx, hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=6).hexdigest(),
                  r.get('events'), r.get('nevents'), r.get('sched'), r.get('points'), r.get('sim_ns'),
                  json.dumps(r.get('faults'), sort_keys=True), len(r['violations']), flush=True)


def main():
    cmd = sys.argv[1]
    if cmd == 'check':
        return check(sys.argv[2])
    if cmd == 'worker':
        a = sys.argv
        worker(a[2], int(a[3]), a[4], int(a[5]), int(a[6]), float(a[7]), int(a[8]))
        return 0
    if cmd == 'replay':
        return replay(sys.argv[2], '--json' in sys.argv)
    if cmd == 'digest':
        digest(sys.argv[2].split(','), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]))
        return 0
    if cmd == 'helper':
        import boot             # noqa: F401
        import s_env
        s_env.helper_main(sys.argv[2])
        return 0
    if cmd == 'one':
        import boot
        sc = boot.scenario(sys.argv[2])
        case = sc.gen(case_rng(int(os.environ.get('VERIF_SEED', '1')), sys.argv[2], int(sys.argv[3])), 'quick')
        print(json.dumps(case, indent=1)[:6000])
        r = run_case(sc, case)
        r.pop('trace', None)
        print(json.dumps(r, indent=1)[:6000])
        return 0
    raise SystemExit('unknown command')


if __name__ == '__main__':
    sys.exit(main())
