"""Runs plans: forks one child per simulated process life, keeps the model across lives,
collects events, and decides what the run showed.  Also the worker's main loop.
"""
import base64
import json
import os
import pickle
import select
import shutil
import signal
import sys
import time
import warnings

SIM = os.path.dirname(os.path.abspath(__file__))
LIFE_WALL_S = 90


class Ctx:
    pass


def boot(repo, so, rootdir):
    """imports everything real once; children are forked from here"""
    warnings.simplefilter('ignore')
    sys.path.insert(0, repo)
    import numpy, h5py                                   # noqa
    import scipy.sparse                                  # noqa
    import astropy.units, astropy.coordinates, astropy.time, astropy.table, astropy.constants  # noqa
    import pandas                                        # noqa
    import seams
    import sched
    roots = (os.path.join(repo, 'hickle') + os.sep, os.path.join(SIM, 'worldlib') + os.sep)
    sched.install_locks(roots[:1])
    import hickle, hickle.hickle, hickle.lookup, hickle.fileio, hickle.helpers   # noqa
    if not os.path.abspath(hickle.__file__).startswith(os.path.abspath(repo) + os.sep):
        raise SystemExit('hickle was not imported from %s but %s' % (repo, hickle.__file__))
    import objects, world                                # noqa
    ctx = Ctx()
    ctx.disk = seams.Disk(so, rootdir)
    ctx.h5 = seams.H5Api()
    ctx.h5.install()
    seams.MetaCache.install()
    ctx.imports = seams.LoaderImports()
    ctx.imports.install()
    ctx.lines = sched.Lines(roots)
    ctx.legacy = os.path.join(repo, 'hickle', 'tests', 'legacy_hkls')
    ctx.rootdir = rootdir
    # the first use of some libraries has process wide side effects, have them before forking
    astropy.units.Unit('m / s')
    import gc
    gc.collect()
    gc.freeze()
    return ctx


def _child(ctx, plan, li, model, disk_root, side, fd):
    import gc
    import world
    out = os.fdopen(fd, 'w')

    def emit(kind, d):
        out.write(kind + ' ' + json.dumps(d, default=str) + '\n')
        out.flush()
    life = plan['lives'][li]
    nul = os.open('/dev/null', os.O_WRONLY)
    os.dup2(nul, 2)
    os.dup2(nul, 1)
    code = 0
    try:
        env = life.get('env', 'full')
        wl = os.path.join(SIM, 'worldlib')
        if env == 'full':
            sys.path.insert(0, wl)
        elif env in ('noclass', 'noattr'):
            # the module is gone for the process; the oracle keeps a private twin
            import importlib.util
            import objects
            spec = importlib.util.spec_from_file_location('simworld', os.path.join(wl, 'simworld.py'))
            objects._twin = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(objects._twin)
            if env == 'noattr':
                # a later release of the module which does not have these classes any more
                alt = os.path.join(side, 'wl_noattr')
                os.makedirs(alt, exist_ok=True)
                with open(os.path.join(alt, 'simworld.py'), 'w') as f:
                    f.write('RELEASE = 2\n')
                sys.path.insert(0, alt)
        else:
            alt = os.path.join(side, 'wl_' + env)
            os.makedirs(alt, exist_ok=True)
            shutil.copy(os.path.join(wl, 'simworld.py'), alt)
            sys.path.insert(0, alt)
        cwd = os.path.join(side, 'cwd')
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        if plan.get('track_order'):
            import h5py
            h5py.get_config().track_order = True
        W = world.World(plan, model, ctx, disk_root, side, emit)
        gc.collect()
        gc.freeze()
        for i, op in enumerate(life['ops']):
            emit('B', i)
            ev = W.run(i, op)
            ev['model'] = base64.b64encode(pickle.dumps(W.model)).decode()
            emit('E', ev)
            if W.doomed:
                break
        emit('D', W.doomed)
        if life.get('end', 'exit') == 'exit' and not W.doomed:
            for h in W.handles.values():
                try:
                    h.close()
                except Exception:
                    pass
    except BaseException as e:
        import traceback
        emit('H', ''.join(traceback.format_exception(e))[-3000:])
        code = 3
    out.flush()
    os._exit(code)


def run_plan(ctx, plan, wall=LIFE_WALL_S):
    """-> {'violations', 'events', 'inconclusive', 'harness'}"""
    import model as M
    disk_root = ctx.rootdir
    shutil.rmtree(disk_root, ignore_errors=True)
    side = disk_root + '.side'
    shutil.rmtree(side, ignore_errors=True)
    os.makedirs(disk_root)
    os.makedirs(side)
    model = M.Model()
    events, violations = [], []
    out = {'violations': violations, 'events': events, 'inconclusive': None, 'harness': None}
    for li, life in enumerate(plan['lives']):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(ctx, plan, li, model, disk_root, side, w)
        os.close(w)
        buf, deadline = b'', time.monotonic() + wall
        timed_out = False
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            if not select.select([r], [], [], left)[0]:
                timed_out = True
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
        os.close(r)
        if timed_out:
            os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        cur = None
        doomed = False
        levents = []
        for line in buf.decode('utf8', 'replace').splitlines():
            kind, _, rest = line.partition(' ')
            try:
                d = json.loads(rest)
            except ValueError:
                continue
            if kind == 'B':
                cur = d
            elif kind == 'E':
                op = life['ops'][d['i']]
                levents.append(d)
                for v in d.get('v', ()):
                    v = dict(v)
                    v.update(life=li, i=d['i'], op=op['op'])
                    violations.append(v)
                model = pickle.loads(base64.b64decode(d.pop('model')))
                cur = None
            elif kind == 'D':
                doomed = d
            elif kind == 'H':
                out['harness'] = d
        events.append(levents)
        # handles do not survive the process
        for h, (f, m, is_open) in list(model.handles.items()):
            fs = model.files.get(f)
            if is_open and fs is not None and m == 'r+' and (doomed or timed_out or st != 0):
                fs.void = True
        model.handles.clear()
        if timed_out or any(e.get('res') == 'stuck' for e in levents):
            out['inconclusive'] = 'wall clock guard'
            break
        if out['harness']:
            break
        crashed = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77
        signalled = os.WIFSIGNALED(st)
        if crashed or signalled:
            if cur is None:
                # after the last operation: HDF5's own state after an injected device failure
                if signalled and not doomed:
                    violations.append({'cls': 'native-crash', 'msg': 'signal %d outside any operation' % os.WTERMSIG(st), 'life': li, 'i': None})
                continue
            op = life['ops'][cur]
            disk_fault = any(f['t'] in ('io', 'stream') and not f.get('benign') for f in op.get('faults', ()))
            levents.append({'i': cur, 'op': op['op'], 'res': 'crash' if crashed else 'signal', 'fault': [[f.get(k) for k in ('name', 'nth', 'arg')] for f in op.get('faults', ())]})
            if signalled and not disk_fault:
                violations.append({'cls': 'native-crash', 'msg': 'process died with signal %d' % os.WTERMSIG(st), 'life': li, 'i': cur, 'op': op['op']})
            if op['op'] == 'dump':
                model.dump_done(op, 'died', 'disk', {}, model.predict_dump(op))
        elif st != 0 and not out['harness']:
            out['harness'] = 'child exit status %d' % st
            break
    shutil.rmtree(disk_root, ignore_errors=True)
    shutil.rmtree(side, ignore_errors=True)
    return out
