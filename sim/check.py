#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py --replay FILE        run a replay file; exit 1 if it reproduces
   check.py --build              build what the checks need
   check.py --selftest [N]       determinism: same seeds, other worker counts, same logs
Exit status: 0 held, 1 VIOLATION, 2 the check itself failed.
"""
import argparse
import copy
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
BUILD = os.path.join(VERIF, 'build')
LEVELS = {}


def build():
    src = os.path.join(VERIF, 'native', 'simfs.c')
    so = os.path.join(BUILD, 'simfs-%s.so' % hashlib.md5(open(src, 'rb').read()).hexdigest()[:10])
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = '%s.%d' % (so, os.getpid())
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
        os.replace(tmp, so)
    return so


def _noaslr():
    """HDF5 is not memory safe once its device fails: at least have the same addresses in every run"""
    cmd = ['setarch', '-R']
    try:
        if subprocess.run(cmd + ['true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            return cmd
    except OSError:
        pass
    return []


NOASLR = _noaslr()


class Worker:
    def __init__(self, k, so, scratch, hashseed='0'):
        env = {k_: v for k_, v in os.environ.items() if not k_.startswith(('PYTHON', 'LD_', 'HDF5_'))}
        env.update(LD_PRELOAD=so, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   MKL_NUM_THREADS='1', MALLOC_ARENA_MAX='1', HOME=scratch, XDG_CACHE_HOME=scratch, XDG_CONFIG_HOME=scratch, TZ='UTC', LC_ALL='C.UTF-8')
        cfg = {'repo': REPO, 'so': so, 'root': os.path.join(scratch, 'w%d' % k)}
        self.err = open(os.path.join(scratch, 'w%d.err' % k), 'w+')
        self.p = subprocess.Popen(NOASLR + [PY, os.path.join(SIM, 'worker.py'), json.dumps(cfg)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, text=True, cwd=scratch, start_new_session=True)
        self.k = k

    def start(self):
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError('worker did not start: ' + self.err.read()[-2000:])

    def send(self, d):
        self.p.stdin.write(json.dumps(d) + '\n')
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError('worker died: ' + self.err.read()[-2000:])
        return json.loads(line)

    def plan(self, prop, plan):
        self.send({'cmd': 'plan', 'prop': prop, 'plan': plan})
        return self.recv()

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()


class Scratch:
    def __enter__(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.d = tempfile.mkdtemp(prefix='hksim.', dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ---------------------------------------------------------------------- searching

def search(pid, tier, seed, nworkers, wall, limit=None, nvar=None, stop_on_violation=True, hashseed='0', keep=False):
    sys.path.insert(0, SIM)
    so = build()
    prop = PROP_SIZES[pid]
    nbase, nv = prop[tier]
    nbase = limit or nbase
    nv = nv if nvar is None else nvar
    t0 = time.time()
    agg = {'runs': 0, 'ops': 0, 'lives': 0, 'fired': {}, 'outcomes': {}, 'digests': set(), 'nontrivial': set(), 'inconclusive': 0, 'bases': 0, 'steps': 0, 'switches': 0,
           'viol': [], 'harness': [], 'samples': [], 'per_base': {}}
    with Scratch() as scratch:
        ws = [Worker(k, so, scratch, hashseed) for k in range(nworkers)]
        q = queue.Queue()
        deadline = t0 + wall
        try:
            for w in ws:
                w.start()

            def pump(w):
                try:
                    while True:
                        d = w.recv()
                        q.put((w, d))
                        if d.get('done'):
                            return
                except Exception as e:
                    q.put((w, {'dead': str(e)}))
            for k, w in enumerate(ws):
                w.send({'cmd': 'bases', 'prop': pid, 'seed': seed, 'ids': list(range(k, nbase, nworkers)), 'nvar': nv, 'deadline': deadline})
                threading.Thread(target=pump, args=(w,), daemon=True).start()
            live = len(ws)
            stop = False
            while live:
                try:
                    w, d = q.get(timeout=max(1, deadline + 200 - time.time()))
                except queue.Empty:
                    agg['harness'].append('search did not end in time')
                    break
                if d.get('done'):
                    live -= 1
                    continue
                if d.get('dead'):
                    agg['harness'].append(d['dead'])
                    live -= 1
                    continue
                if d.get('harness_plan') and os.environ.get('VERIF_DEBUG'):
                    json.dump(d['harness_plan'], open('/tmp/harness_plan.json', 'w'))
                if d.get('harness'):
                    agg['harness'].append(d['harness'])
                    if 'runs' not in d:
                        continue
                agg['bases'] += 1
                for k, (pl, lg) in enumerate(zip(d.get('plans', ()), d.get('logs', ()))):
                    agg['samples'].append({'seed': seed, 'base': d['i'], 'variant': k, 'digest': d['digests'][k], 'plan': pl, 'log': lg})
                for k in ('runs', 'ops', 'lives', 'inconclusive', 'steps', 'switches'):
                    agg[k] += d[k]
                for k in ('fired', 'outcomes'):
                    for a, b in d[k].items():
                        agg[k][a] = agg[k].get(a, 0) + b
                agg['digests'].update(d['digests'])
                agg['nontrivial'].update(d['nontrivial'])
                if keep:
                    agg['per_base'][d['i']] = d['digests']
                agg['viol'] += [dict(v, base=d['i']) for v in d['viol']]
                if agg['viol'] and stop_on_violation:
                    stop = True
                    break
            agg['search_s'] = time.time() - t0
            if stop:
                # let the bases with smaller numbers finish is not needed: the replay file is what counts
                pass
        finally:
            for w in ws:
                w.kill()
    return agg


# ---------------------------------------------------------------------- minimising

def same_class(res, cls):
    return any(v['cls'] == cls for v in res['viol']) and not res['inconclusive'] and not res['harness']


def shrink_recipe(r):
    """smaller recipes to try, best first"""
    k = r[0]
    out = []
    kids = []
    if k in ('list', 'tuple', 'set', 'always', 'objarr', 'frozen'):
        kids = list(r[1])
        n = len(kids)
        out += [x for x in kids]
        if n > 1:
            out += [[k, kids[:n // 2]], [k, kids[n // 2:]]]
        out += [[k, kids[:i] + kids[i + 1:]] for i in range(n)]
        for i, x in enumerate(kids):
            out += [[k, kids[:i] + [y] + kids[i + 1:]] for y in shrink_recipe(x)]
    elif k in ('dict', 'odict'):
        it = list(r[1])
        out += [v for _, v in it]
        if len(it) > 1:
            out += [[k, it[:len(it) // 2]], [k, it[len(it) // 2:]]]
        out += [[k, it[:i] + it[i + 1:]] for i in range(len(it))]
        for i, (kk, v) in enumerate(it):
            out += [[k, it[:i] + [[kk, y]] + it[i + 1:]] for y in shrink_recipe(v)]
    elif k in ('def', 'rich', 'gone'):
        out += [r[2]]
        out += [[k, r[1], y] for y in shrink_recipe(r[2])]
    elif k == 'rep':
        out += [r[2]] + ([[k, r[1] - 1, r[2]]] if r[1] > 1 else [])
    elif k not in ('none', 'bool', 'ref', 'bomb', 'legacy'):
        out += [['none']]
    return out


def checksummed(r):
    """every part of the object is stored in datasets that accept a checksum"""
    k = r[0]
    if k in ('list', 'tuple'):
        return any(x[0] == 'str' for x in r[1]) and len(r[1]) > 1 and all(checksummed(x) for x in r[1])
    if k in ('dict', 'odict'):
        return all(checksummed(v) for _, v in r[1])
    if k == 'rich':
        return checksummed(r[2])
    return k not in ('none', 'bool', 'int', 'float', 'complex', 'nps')


def candidates(plan):
    lives = plan['lives']
    # what the scenario is about has to stay
    rot = plan.get('kind') == 'rot'
    keep = ('kw',) if rot else ('options',) if any(l.get('env') for l in lives) else ()
    for li in range(len(lives)):
        if len(lives) > 1:
            p = copy.deepcopy(plan)
            del p['lives'][li]
            yield 'drop life', p
    for li, l in enumerate(lives):
        n = len(l['ops'])
        step = max(1, n // 2)
        while step:
            for i in range(0, n, step):
                p = copy.deepcopy(plan)
                del p['lives'][li]['ops'][i:i + step]
                yield 'drop ops', p
            step //= 2
    for li, l in enumerate(lives):
        for i, op in enumerate(l['ops']):
            for what in ('faults', 'kw', 'options', 'hold', 'wrap', 'fn'):
                if op.get(what) and what not in keep:
                    p = copy.deepcopy(plan)
                    p['lives'][li]['ops'][i].pop(what)
                    yield 'drop ' + what, p
            if op.get('path', '/') != '/' and op['op'] == 'dump':
                p = copy.deepcopy(plan)
                for l2 in p['lives']:
                    for o2 in l2['ops']:
                        if o2.get('file') == op['file'] and o2.get('path') == op['path']:
                            o2['path'] = '/'
                yield 'path', p
            if op['op'] == 'dump':
                for r in shrink_recipe(op['obj']):
                    if rot and not checksummed(r):
                        continue
                    p = copy.deepcopy(plan)
                    p['lives'][li]['ops'][i]['obj'] = r
                    yield 'object', p
            if op.get('rec'):
                for r in shrink_recipe(op['rec']):
                    p = copy.deepcopy(plan)
                    p['lives'][li]['ops'][i]['rec'] = r
                    yield 'object', p
            for f, fault in enumerate(op.get('faults', ())):
                if fault['t'] == 'gc' and len(fault.get('at', ())) > 1:
                    at = fault['at']
                    for part in (at[:len(at) // 2], at[len(at) // 2:]):
                        p = copy.deepcopy(plan)
                        p['lives'][li]['ops'][i]['faults'][f]['at'] = part
                        yield 'gc', p
                if fault.get('nth'):
                    for n in (0, fault['nth'] // 2, fault['nth'] - 1):
                        p = copy.deepcopy(plan)
                        p['lives'][li]['ops'][i]['faults'][f]['nth'] = n
                        yield 'earlier', p
            if op['op'] == 'par':
                for t in range(len(op['tracks'])):
                    if len(op['tracks']) > 2:
                        p = copy.deepcopy(plan)
                        del p['lives'][li]['ops'][i]['tracks'][t]
                        yield 'drop thread', p
                    for j, o in enumerate(op['tracks'][t]):
                        if len(op['tracks'][t]) > 1:
                            p = copy.deepcopy(plan)
                            del p['lives'][li]['ops'][i]['tracks'][t][j]
                            yield 'drop thread op', p
                        if o['op'] == 'dump':
                            for r in shrink_recipe(o['obj']):
                                p = copy.deepcopy(plan)
                                p['lives'][li]['ops'][i]['tracks'][t][j]['obj'] = r
                                yield 'object', p
                s = op['sched']
                if s['mode'] == 'list':
                    sw = s['switches']
                    step = max(1, len(sw) // 2)
                    while step:
                        for a in range(0, len(sw), step):
                            p = copy.deepcopy(plan)
                            p['lives'][li]['ops'][i]['sched']['switches'] = sw[:a] + sw[a + step:]
                            yield 'switches', p
                        step //= 2


def listify(plan, res):
    """replace seeded schedules by the list of switches that was recorded"""
    p = copy.deepcopy(plan)
    for li, evs in enumerate(res['log']):
        for e in evs:
            if e.get('switches') is not None and e['op'] == 'par':
                op = p['lives'][li]['ops'][e['i']]
                s = {'mode': 'list', 'switches': e['switches']}
                if op['sched'].get('opcodes'):
                    s['opcodes'] = True
                op['sched'] = s
    return p


def minimise(w, pid, plan, cls, budget):
    t0 = time.time()
    res = w.plan(pid, plan)
    if not same_class(res, cls):
        return None, res
    tried = 0
    cur = plan
    lp = listify(cur, res)
    if lp != cur:
        r = w.plan(pid, lp)
        if same_class(r, cls):
            cur, res = lp, r
    progress = True
    seen = set()
    while progress and time.time() - t0 < budget:
        progress = False
        for what, p in candidates(cur):
            if time.time() - t0 > budget:
                break
            key = json.dumps(p, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            r = w.plan(pid, p)
            if same_class(r, cls):
                cur, res = p, r
                progress = True
                break
    return cur, res


# ---------------------------------------------------------------------- reporting

def known_findings():
    fn = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split(' :: ')[0].split() if '=' in x)
                d['text'] = line.split(' :: ', 1)[1] if ' :: ' in line else ''
                out.append(d)
    return out


def is_known(pid, v, known):
    for d in known:
        if d.get('property') == pid and d.get('cls') == v['cls'] and d.get('contains', '\0') in v['msg'].replace(' ', '_'):
            return d
    return None


def write_evidence(pid, tier, seed, agg, wall_s, nviol):
    import scenario_info
    info = scenario_info.INFO[pid]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    hours = max(agg.get('search_s', wall_s), 1e-6) / 3600.0
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['nontrivial']),
        'rule': info['rule'] + ' Two runs are distinct if their event logs differ (operation, outcome, exception, faults fired, system calls, '
                'HDF5 calls, lines, schedule); a run is non-trivial if at least one fault, preemption, collection or process restart happened in it.',
        'samples': agg['samples'],
        'simulated_runs_per_hour': int(agg['runs'] / hours),
        'base_seeds': agg['bases'],
        'seeds_per_hour': int(agg['bases'] / hours),
        'process_lives': agg['lives'],
        'operations': agg['ops'],
        'operation_outcomes': agg['outcomes'],
        'faults_fired': agg['fired'],
        'simulated_time': 'hickle has no clock or timer; simulated time is counted in events: %d disk system calls and scheduled source lines, %d thread switches' % (agg['steps'], agg['switches']),
        'inconclusive_runs': agg['inconclusive'],
        'real_components': ['hickle (all of /repo/hickle)', 'h5py', 'HDF5 C library', 'numpy, scipy, astropy', 'CPython, its garbage collector and import system', 'kernel file system (tmpfs) below the system call shim'],
        'simulated_components': ['disk faults (system call shim)', 'thread scheduler', 'h5py call failures', 'loader import failures', 'user callbacks and file-like objects', 'process crash and restart', 'the user (workload and reference model)'],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall_s, 2), 'violations': nviol,
          'assumptions': info['assumptions']}
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))


def check(pid, tier, seed, a):
    t0 = time.time()
    wall = {'quick': 150, 'thorough': 800}[tier] if a.wall is None else a.wall
    agg = search(pid, tier, seed, a.workers, wall, a.limit)
    # the smallest of the first cases, written out
    agg['samples'] = sorted(agg['samples'], key=lambda x: (not x['variant'], len(json.dumps(x, default=str)), x['base']))[:3]
    print('%s: %d runs from %d seeds in %.1fs, %d distinct logs, faults %s' % (pid, agg['runs'], agg['bases'], agg['search_s'], len(agg['digests']),
                                                                     json.dumps(agg['fired'], sort_keys=True)))
    if a.verbose:
        print('outcomes', json.dumps(agg['outcomes'], sort_keys=True), 'inconclusive', agg['inconclusive'])
    known = known_findings()
    fresh, seen = [], set()
    for x in agg['viol']:
        d = is_known(pid, x['v'], known)
        if d:
            if d['text'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, d['text']))
                seen.add(d['text'])
        else:
            fresh.append(x)
    status = 0
    if fresh:
        so = build()
        fresh.sort(key=lambda x: (len(json.dumps(x['plan'])), x['base'], x['variant']))
        with Scratch() as scratch:
            w = Worker(0, so, scratch)
            w.start()
            try:
                done = set()
                for x in fresh[:12]:
                    cls = x['v']['cls']
                    if cls in done:
                        continue
                    small, res = minimise(w, pid, x['plan'], cls, a.shrink)
                    if small is None:
                        print('note: a %s of seed %d/%d variant %d did not reproduce and is not reported' % (cls, seed, x['base'], x['variant']))
                        continue
                    done.add(cls)
                    v = [v for v in res['viol'] if v['cls'] == cls][0]
                    rd = os.path.join(VERIF, 'replays')
                    os.makedirs(rd, exist_ok=True)
                    fn = os.path.join(rd, '%s-%s-%d-%d.json' % (pid, cls, seed, x['base']))
                    with open(fn, 'w') as f:
                        json.dump({'property': pid, 'seed': seed, 'base': x['base'], 'variant': x['variant'], 'class': cls, 'violation': v,
                                   'digest': res['digest'], 'plan': small, 'log': res['log']}, f, indent=1, default=str)
                    print('VIOLATION property=%s replay=%s' % (pid, fn))
                    print('  %s: %s' % (cls, v['msg'][:500]))
                    print('  seed %d base %d variant %d; %d lives, %d operations after minimising' % (
                        seed, x['base'], x['variant'], len(small['lives']), sum(len(l['ops']) for l in small['lives'])))
                    status = 1
                    break
            finally:
                w.kill()
    write_evidence(pid, tier, seed, agg, time.time() - t0, len(fresh))
    if status == 0:
        if agg['harness']:
            print('HARNESS ERROR (%d): %s' % (len(agg['harness']), agg['harness'][0][-1500:]))
            return 2
        if agg['runs'] == 0 or agg['inconclusive'] > max(3, agg['runs'] // 20):
            print('inconclusive: %d of %d runs hit the wall clock guard' % (agg['inconclusive'], agg['runs']))
            return 2
        if fresh:
            print('no violation reproduced')
    return status


def replay(fn):
    d = json.load(open(fn))
    so = build()
    with Scratch() as scratch:
        w = Worker(0, so, scratch)
        w.start()
        try:
            res = w.plan(d['property'], d['plan'])
        finally:
            w.kill()
    ok = same_class(res, d['class'])
    print('digest %s (recorded %s)' % (res['digest'], d['digest']))
    if ok:
        v = [v for v in res['viol'] if v['cls'] == d['class']][0]
        print('VIOLATION property=%s replay=%s' % (d['property'], fn))
        print('  %s: %s' % (v['cls'], v['msg']))
        return 1
    print('not reproduced: %s' % json.dumps(res['viol'] or res['harness'])[:500])
    return 0


def selftest(n, props):
    """same seeds, different worker counts (the hash seed is pinned): every event log must be the same"""
    bad = 0
    for pid in props:
        runs = [search(pid, 'quick', 7, nw, 3000, limit=n, stop_on_violation=False, hashseed=hs, keep=True)['per_base']
                for nw, hs in ((8, '0'), (8, '0'), (3, '0'), (5, '0'))]
        diff = [i for i in runs[0] if any(r.get(i) != runs[0][i] for r in runs[1:])]
        total = sum(len(v) for v in runs[0].values())
        print('%s: %d base seeds, %d runs, 4 times: %d differ %s' % (pid, len(runs[0]), total, len(diff), diff[:10]), flush=True)
        bad += len(diff)
    return 2 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='*')
    ap.add_argument('--replay')
    ap.add_argument('--build', action='store_true')
    ap.add_argument('--selftest', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('--limit', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--shrink', type=float, default=45)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    if a.build:
        print(build())
        return 0
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        return selftest(a.selftest, a.prop or sorted(PROP_SIZES))
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    rc = 0
    for pid in a.prop:
        try:
            rc = max(rc, check(pid, tier, seed, a))
        except Exception as e:
            import traceback
            traceback.print_exc()
            rc = 2
    return rc


from scenario_info import SIZES as PROP_SIZES  # noqa

if __name__ == '__main__':
    sys.exit(main())
