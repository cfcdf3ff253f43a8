"""One simulator process: reads JSON commands on stdin, answers with JSON lines on stdout."""
import copy
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner  # noqa


def digest(result):
    """what the run looked like: every operation, its outcome, the faults that fired, the schedule"""
    key = []
    for evs in result['events']:
        for e in evs:
            key.append([e.get('op'), e.get('res'), e.get('exc'), sorted((e.get('fired') or {}).items()), e.get('counts'),
                        e.get('val'), e.get('want'), e.get('threads'), e.get('switches'), e.get('loads'), e.get('rot'), e.get('equal'), e.get('fault')])
    return hashlib.md5(json.dumps(key, sort_keys=True, default=str).encode()).hexdigest()[:16]


def log_of(result):
    return [[{k: v for k, v in e.items() if k != 'v'} for e in evs] for evs in result['events']]


def finish(prop, plan):
    plan = dict(plan)
    plan['property'] = prop.id
    plan['checks'] = list(prop.checks)
    return plan


def one_base(ctx, prop, seed, i, nvar, logs=False):
    import scenarios  # noqa
    rng = random.Random('%s/%d/%d' % (prop.id, seed, i))
    plan = finish(prop, prop.base(rng))
    out = {'i': i, 'runs': 0, 'fired': {}, 'digests': [], 'viol': [], 'inconclusive': 0, 'ops': 0, 'lives': 0, 'outcomes': {}, 'steps': 0,
           'switches': 0, 'nontrivial': []}
    if logs:
        out.update(logs=[], plans=[])
    vplans = []
    res = run_one(ctx, prop, plan, out, i, 0)
    if prop.base_counts and res['harness'] is None:
        vplans = prop.variants(rng, plan, res, nvar)
    elif not prop.base_counts:
        vplans = prop.variants(rng, plan, res, nvar)
    for k, p in enumerate(vplans):
        run_one(ctx, prop, finish(prop, p), out, i, k + 1)
    return out, plan


def run_one(ctx, prop, plan, out, i, k):
    res = runner.run_plan(ctx, plan)
    out['runs'] += 1
    out['lives'] += len(res['events'])
    nfired = 0
    for evs in res['events']:
        for e in evs:
            out['ops'] += 1
            for f, n in (e.get('fired') or {}).items():
                out['fired'][f] = out['fired'].get(f, 0) + n
                nfired += n
            key = '%s:%s' % (e.get('op'), e.get('res'))
            if e.get('op') in ('load', 'dump'):
                key = '%s %s:%s' % (key[:4], e.get('want') or e.get('pred') or 'user', e.get('res'))
            out['outcomes'][key] = out['outcomes'].get(key, 0) + 1
            out['steps'] += e.get('steps', 0) + (e.get('counts') or {}).get('io', 0)
            out['switches'] += e.get('nswitch', 0)
            if e.get('res') == 'crash':
                out['fired']['crash'] = out['fired'].get('crash', 0) + 1
                nfired += 1
            if e.get('nswitch'):
                nfired += e['nswitch']
                out['fired']['preemption'] = out['fired'].get('preemption', 0) + e['nswitch']
            if e.get('rot'):
                out['fired']['bit-rot'] = out['fired'].get('bit-rot', 0) + 1
                nfired += 1
    restarts = max(0, len(res['events']) - 1)
    out['fired']['restart'] = out['fired'].get('restart', 0) + restarts
    d = digest(res)
    if 'logs' in out:
        out['logs'].append(log_of(res))
        out['plans'].append(plan)
    out['digests'].append(d)
    if nfired or restarts:
        out['nontrivial'].append(d)
    if res['inconclusive']:
        out['inconclusive'] += 1
        out['harness_plan'] = plan
    if res['harness']:
        out['harness'] = '%s (base %d variant %d)' % (res['harness'], i, k)
        out['harness_plan'] = plan
    for v in res['violations']:
        if prop.mine(v) and not res['inconclusive']:
            out['viol'].append({'variant': k, 'v': v, 'plan': plan})
    return res


def main():
    cfg = json.loads(sys.argv[1])
    proto = os.fdopen(os.dup(1), 'w')
    nul = os.open('/dev/null', os.O_WRONLY)
    os.dup2(nul, 1)
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx = runner.boot(cfg['repo'], cfg['so'], cfg['root'])
    import scenarios
    proto.write(json.dumps({'ready': True}) + '\n')
    proto.flush()
    for line in sys.stdin:
        cmd = json.loads(line)
        if cmd['cmd'] == 'quit':
            break
        prop = scenarios.PROPS[cmd['prop']]
        if cmd['cmd'] == 'bases':
            for i in cmd['ids']:
                if time.time() > cmd['deadline']:
                    break
                try:
                    out, _ = one_base(ctx, prop, cmd['seed'], i, cmd['nvar'], cmd.get('logs') or i < 4)
                except Exception as e:
                    import traceback
                    out = {'i': i, 'harness': 'generator: ' + ''.join(traceback.format_exception(e))[-2000:]}
                proto.write(json.dumps(out, default=str) + '\n')
                proto.flush()
            proto.write(json.dumps({'done': True}) + '\n')
        elif cmd['cmd'] == 'plan':
            res = runner.run_plan(ctx, cmd['plan'])
            proto.write(json.dumps({'viol': [v for v in res['violations'] if prop.mine(v)], 'digest': digest(res), 'log': log_of(res),
                                    'inconclusive': res['inconclusive'], 'harness': res['harness']}, default=str) + '\n')
        proto.flush()
    shutil.rmtree(cfg['root'], ignore_errors=True)
    shutil.rmtree(cfg['root'] + '.side', ignore_errors=True)


if __name__ == '__main__':
    main()
