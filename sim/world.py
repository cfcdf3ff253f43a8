"""The simulated user's process: executes the operations of one process life against the
real hickle, h5py and HDF5, through the seams, and judges every outcome with the model.
"""
import gc
import hashlib
import io
import json
import os
import pathlib
import shutil
import sys
import warnings

import h5py
import numpy as np

import hickle
import objects
import sched
import seams
from model import FileState, Model, norm, parents
from seams import EXCS, KINDS

HERE = os.path.dirname(os.path.abspath(__file__))
STREAM_VIA = {'s0': 'stream', 's1': 'lean', 's2': 'bytesio'}
LEGACY = {'v3': 'hickle_3_4_9.hkl', 'v4': 'hickle_4.0.0.hkl'}


# ---------------------------------------------------------------------- snapshots

def _attr(h, v, f):
    if isinstance(v, h5py.Reference):
        try:
            return ['ref', f[v].name] if v else ['nullref']
        except Exception as e:
            return ['badref', type(e).__name__]
    if isinstance(v, np.ndarray):
        return ['arr', str(v.dtype), list(v.shape), hashlib.md5(v.tobytes() if v.dtype.kind != 'O' else repr(v.tolist()).encode()).hexdigest()]
    return [type(v).__name__, repr(v)]


def snapshot(h5f, root='/'):
    """everything a reader of the file can see, as a plain value"""
    out = []

    def node(name, o):
        attrs = sorted([k, _attr(o, o.attrs[k], h5f)] for k in o.attrs)
        if isinstance(o, h5py.Dataset):
            d = o[()] if o.shape is not None else None
            if isinstance(d, h5py.Reference):
                v = _attr(o, d, h5f)
            elif d is None:
                v = None
            elif isinstance(d, np.ndarray) and d.dtype.kind == 'O':
                v = repr([_attr(o, x, h5f) if isinstance(x, h5py.Reference) else x for x in d.ravel().tolist()])
            else:
                v = hashlib.md5(np.asarray(d).tobytes()).hexdigest()
            out.append([name, 'D', str(o.dtype), list(o.shape) if o.shape is not None else None, v, attrs,
                        [o.compression, str(o.compression_opts), bool(o.shuffle), bool(o.fletcher32)]])
        else:
            out.append([name, 'G', attrs])
            for k in o:
                if o.get(k, getlink=True).__class__ is not h5py.HardLink:
                    out.append([name + '/' + k, 'L'])
                    continue
                node(name.rstrip('/') + '/' + k, o[k])
    node(root, h5f[root])
    return out


def file_hash(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.md5(f.read()).hexdigest()
    except OSError:
        return None


# ---------------------------------------------------------------------- the process

def _due_to_warning(exc):
    while exc is not None:
        if isinstance(exc, Warning):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


class World:
    def __init__(self, plan, model, ctx, root, side, emit):
        self.plan, self.model, self.ctx = plan, model, ctx
        self.root, self.side, self.emit = root, side, emit
        self.disk, self.h5, self.imports, self.lines = ctx.disk, ctx.h5, ctx.imports, ctx.lines
        self.handles, self.streams, self.held = {}, {}, []
        self.checks = set(plan.get('checks', ()))
        self.trace = plan.get('trace', False)
        seams.MetaCache.tiny = bool(plan.get('tinycache'))
        self.failed = False     # the previous call raised
        self.violations = []
        self.doomed = False
        self.par = None

    # ------------------------------------------------------------ helpers

    def p(self, f):
        return os.path.join(self.root, f)

    def listing(self):
        return {os.path.join(d, x) for d in {self.root, os.getcwd()} for x in os.listdir(d)}

    def bad(self, cls, msg, **k):
        v = {'cls': cls, 'msg': msg[:600]}
        v.update(k)
        self.violations.append(v)
        self.ev.setdefault('v', []).append(v)

    def stream(self, name, fresh=False, flavour='io'):
        s = self.streams.get(name)
        if s is None:
            fn = os.path.join(self.side, name)
            data = b''
            if os.path.exists(fn):
                with open(fn, 'rb') as f:
                    data = f.read()
            s = self.streams[name] = seams.SimStream(data, flavour)
        return s

    def save_stream(self, name):
        with open(os.path.join(self.side, name), 'wb') as f:
            f.write(self.streams[name].getvalue())

    def target(self, op, writing):
        """(first argument for hickle, extra kwargs, python file to close, stream name)"""
        via, f = op['via'], op['file']
        if via == 'str':
            return self.p(f), {}, None
        if via == 'path':
            return pathlib.Path(self.p(f)), {}, None
        if via == 'handle':
            return self.handles[op['h']], {}, None
        if via == 'group':
            h = self.handles[op['h']]
            if not h:
                return h, {}, None
            return h[op['base']], {}, None
        if via in ('stream', 'lean'):
            s = self.stream(f, flavour='io' if via == 'stream' else 'lean')
            return (s, {'filename': op['fn']} if op.get('fn') else {}, None) if not op.get('wrap') else \
                ((s, 'nm') if op['wrap'] == 'tuple' else {'file': s, 'name': 'nm'}, {}, None)
        if via == 'bytesio':
            s = self.stream(f)
            return s._b, {}, None
        if via in ('pyfile', 'tuple', 'dict'):
            m = 'rb'
            if writing:
                m = 'w+b' if op['mode'][0] == 'w' else 'r+b'
            pf = open(self.p(f), m)
            if via == 'tuple':
                return (pf, 'name.h5'), {}, pf
            if via == 'dict':
                return {'file': pf, 'name': 'name.h5'}, {}, pf
            return pf, {}, pf
        raise ValueError(via)

    # ------------------------------------------------------------ running one hickle call

    def call(self, op, fn, stream=None):
        """runs fn with the op's faults armed; returns (res, value or exception)"""
        faults = {f['t']: f for f in op.get('faults', ())}
        ev = self.ev
        hyg = 'hyg' in self.checks
        io_plan = []
        for f in op.get('faults', ()):
            if f['t'] == 'io':
                io_plan.append((f['kinds'], f['nth'], f['act'], f['arg'], f['sticky']))
        if 'bomb' in faults or self.plan.get('bombs'):
            import simworld
            bf = faults.get('bomb')
            state = {'n': 0, 'fired': 0}

            def armed(phase, tag):
                n = state['n']
                state['n'] += 1
                if bf is not None and n == bf['nth']:
                    state['fired'] += 1
                    # a class failing to unpickle by AttributeError is recovered by design, see C10
                    name = 'RuntimeError' if phase != 'dump' and bf['exc'] == 'AttributeError' else bf['exc']
                    raise EXCS[name]('injected in user callback')
            simworld.Bomb.armed = armed
        else:
            state = None
        if self.failed:
            # what only the traceback of the previous call kept alive is not open any more
            self.failed = False
            gc.collect()
        (nfiles, nreal), fds, gc0 = (seams.open_h5_files(), seams.open_h5_files(False)), self.disk.open_fds(), gc.isenabled()
        hf = faults.get('h5')
        self.h5.arm(hf['nth'] if hf else None, EXCS[hf['exc']] if hf else OSError, bool(hf and hf.get('sticky')),
                    hf.get('only') if hf else None, log=False)
        imf = faults.get('import')
        self.imports.arm(imf['nth'] if imf else None, EXCS[imf['exc']] if imf else ImportError, imf['when'] if imf else 'before')
        if stream is not None:
            sf = faults.get('stream')
            stream.arm(sf['nth'] if sf else None, EXCS[sf['exc']] if sf else OSError, bool(sf and sf.get('sticky')))
        self.disk.arm(io_plan, log=True)
        lf = faults.get('line')
        gcf = faults.get('gc')
        traced = self.trace or lf or gcf
        if traced:
            evs = {}
            if lf:
                evs[lf['nth']] = EXCS[lf['exc']]
            for n in (gcf or {}).get('at', ()):
                evs[n] = 'gc'
            self.lines.arm(evs, (gcf or {}).get('every', 0))
        exc = val = None
        there = self.listing() if 'litter' in self.checks else None
        try:
            if 'warn' in faults:
                with warnings.catch_warnings():
                    warnings.simplefilter('error')
                    val = fn()
            else:
                val = fn()
            res = 'ok'
        except BaseException as e:
            exc = e
            res = 'raise'
            self.failed = True
        finally:
            lfired = self.lines.disarm() if traced else []
            io_fired = self.disk.disarm()
            log = self.disk.log()
            h5fired = self.h5.disarm()
            imfired = self.imports.disarm()
            if state is not None:
                simworld.Bomb.armed = None
            sfired = stream.disarm() if stream is not None else 0
        # -- what fired, and at which level
        fired = {}
        level = 'none'
        for f, n in zip([x for x in op.get('faults', ()) if x['t'] == 'io'], io_fired):
            if n > 0:
                fired['io:' + f['name']] = n
                if not f.get('benign'):
                    level = 'disk'
        if sfired:
            fired['stream:' + faults['stream']['exc']] = sfired
            level = 'disk'
        if h5fired:
            fired['h5:' + h5fired[0]] = len(h5fired)
            if level == 'none':
                level = 'dirty' if hf.get('sticky') else 'py'
            if any(s in ('File.flush', 'File.close') for s in h5fired):
                level = 'disk' if level != 'disk' else level
        if imfired:
            fired['import:%s' % (imf['when'] if isinstance(imf['when'], str) else 'register')] = 1
            level = 'py' if level == 'none' else level
        if state is not None and state['fired']:
            fired['bomb:' + bf['exc']] = 1
            level = 'py' if level == 'none' else level
        if 'gc' in lfired:
            fired['gc'] = lfired.count('gc')
        for x in lfired:
            if x != 'gc':
                fired['interrupt:' + x] = 1
                level = 'dirty' if level == 'none' else level
        if 'warn' in faults and _due_to_warning(exc):
            fired['warning'] = 1
            level = 'py' if level == 'none' else level
        counts = {'h5': self.h5.count, 'h5sites': dict(self.h5.sites), 'import': self.imports.count, 'io': len(log)}
        for k in KINDS.values():
            c = sum(1 for r in log if r[0] == k)
            if c:
                counts['io_' + k] = c
        if state is not None:
            counts['bomb'] = state['n']
        if stream is not None:
            counts['stream'] = stream.calls
        if traced:
            counts['line'] = self.lines.n
        ev.update(res=res, fired=fired, counts=counts, level=level)
        if exc is not None:
            ev['exc'] = type(exc).__name__
        if there is not None and level != 'disk':
            new = sorted(self.listing() - there - {self.p(op['file'])})
            if new:
                self.bad('litter', '%s %s: created %s' % (op['op'], res, ', '.join(os.path.basename(x) for x in new[:3])))
        # -- hygiene, while the exception (and thus every frame of the call) is still alive
        if hyg and level not in ('disk', 'dirty'):
            n1, f1 = seams.open_h5_files(level == 'none'), self.disk.open_fds()
            if level != 'none':
                nfiles = nreal      # memory of a call that failed goes when its traceback goes
            if n1 != nfiles:
                self.bad('leak', '%s %s: %d HDF5 files open before the call, %d after' % (op['op'], res, nfiles, n1))
            elif f1 != fds:
                self.bad('leak', '%s %s: %d descriptors open before the call, %d after' % (op['op'], res, fds, f1))
        if hyg and not any(k.startswith('interrupt') for k in fired):
            if gc.isenabled() != gc0:
                self.bad('gcstate', '%s %s: garbage collector was %s, is %s' % (op['op'], res, gc0, gc.isenabled()))
                (gc.enable if gc0 else gc.disable)()
        if hyg and level not in ('disk',):
            for name, h in self.handles.items():
                was = self.model.handles[name][2]
                if bool(h) != was:
                    self.bad('handle', '%s %s: user handle %s was %s, is %s' % (op['op'], res, name, was, bool(h)))
            for name, s in self.streams.items():
                if s.closed_by_hickle:
                    s.closed_by_hickle = False
                    self.bad('handle', '%s %s: user stream was closed' % (op['op'], res))
        elif level == 'disk':
            self.doomed = True
        if exc is not None and op.get('hold'):
            self.held.append([exc])
            if op['hold'] == 'cycle':
                c = self.held[-1]
                c.append(c)
                self.held.pop()
        return res, val, exc, level, fired

    # ------------------------------------------------------------ operations

    def run(self, i, op):
        self.ev = {'i': i, 'op': op['op']}
        if op.get('via') in ('handle', 'group') and op['h'] not in self.handles:
            # the user never got this handle: opening it failed before
            self.ev['res'] = 'skip'
            return self.ev
        getattr(self, 'op_' + op['op'])(op)
        return self.ev

    def op_dump(self, op):
        pred = self.model.predict_dump(op)
        obj = objects.build(op['obj'])
        kw = dict(op.get('kw', {}))
        if op.get('path', '/') != '/' or op.get('pass_path'):
            kw['path'] = op['path']
        if op.get('options'):
            kw['options'] = dict(op['options'])
        if not (op['mode'] == 'w' and op.get('default_mode')):
            kw['mode'] = op['mode']
        if op['via'] == 'bytesio' or op['via'] in ('stream', 'lean'):
            s = self.stream(op['file'], flavour='io' if op['via'] != 'lean' else 'lean')
            if op['mode'].startswith('w'):
                # h5py opens file-like objects as they are: replacing the content is up to their owner
                s._b.seek(0)
                s._b.truncate()
        else:
            s = None
        pf = None
        try:
            tgt, extra, pf = self.target(op, True)
        except (OSError, KeyError) as e:
            # the user's own open() failed; hickle was never called
            self.ev.update(res='raise', exc='user:' + type(e).__name__, level='none', fired={}, counts={})
            self.model.dump_done(op, 'raise', 'none', {}, ('refuse', 'pre'))
            return
        kw.update(extra)
        res, val, exc, level, fired = self.call(op, lambda: hickle.dump(obj, tgt, **kw), s)
        if pf is not None:
            if pf.closed and 'hyg' in self.checks:
                self.bad('handle', 'dump %s closed the file object it was given' % res)
            try:
                pf.close()
            except OSError:
                pass
        if s is not None:
            self.save_stream(op['file'])
        verdict, stage = pred
        self.ev['pred'] = verdict
        if verdict == 'ok' and res == 'raise' and level == 'none':
            self.bad('dump-failed', 'dump raised %s: %s' % (type(exc).__name__, exc), ctx=op.get('tag'))
        if verdict == 'refuse' and res == 'ok' and level == 'none':
            self.bad('not-refused', 'dump was acknowledged where it had to be refused (%s)' % stage, ctx=op.get('tag'))
        self.model.dump_done(op, res, level, fired, pred)
        if op['via'] == 'group' and res == 'ok':
            self.model.files[op['file']].groups.update(parents(norm(op['base'])))
        if level == 'disk':
            self.doomed = True
        del exc

    def op_load(self, op):
        kind, slot = self.model.expect_load(op)
        kw = {}
        if op.get('path', '/') != '/' or op.get('pass_path'):
            kw['path'] = op['path']
        s = None
        if op['via'] in ('bytesio', 'stream', 'lean'):
            s = self.stream(op['file'], flavour='io' if op['via'] != 'lean' else 'lean')
        pf = None
        mod = 'mod' in self.checks
        before = self.content(op, s) if mod else None
        try:
            tgt, extra, pf = self.target(op, False)
        except (OSError, KeyError) as e:
            self.ev.update(res='raise', exc='user:' + type(e).__name__, level='none', fired={}, counts={})
            if kind == 'value':
                self.bad('lost', 'file is gone: %s' % e, why=slot.why)
            return
        kw.update(extra)
        if op.get('safe') is not None:
            kw['safe'] = op['safe']
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            res, val, exc, level, fired = self.call(op, lambda: hickle.load(tgt, **kw), s)
        warned = sorted({w.category.__name__ for w in caught})
        if pf is not None:
            if pf.closed and 'hyg' in self.checks:
                self.bad('handle', 'load %s closed the file object it was given' % res)
            pf.close()
        if mod and (level != 'disk' or op['via'] not in ('handle', 'group')):
            after = self.content(op, s)
            if before is not None and after != before:
                self.bad('modified', 'load (%s) changed what is stored: %s' % (res, _delta(before, after)))
        self.judge_load(op, kind, slot, res, val, exc, level, warned)
        if level == 'disk':
            self.doomed = self.doomed or op.get('dooms', False)
        del val, exc

    def judge_load(self, op, kind, slot, res, val, exc, level, warned):
        self.ev['want'] = kind
        if kind == 'any':
            return
        if res == 'raise':
            if kind == 'value' and level == 'none' and op.get('expect') != 'contended':
                self.bad('lost', 'load raised %s: %s' % (type(exc).__name__, str(exc)[:300]), why=slot.why, ctx=op.get('tag'))
            elif level == 'none' and not isinstance(exc, Exception):
                self.bad('lost', 'load raised %s' % type(exc).__name__, why='exc')
            return
        if kind == 'none':
            self.bad('phantom', 'load returned %s where nothing was ever dumped' % objects._short(val))
            return
        diffs = []
        for v in slot.vals:
            want = objects.build(v['rec'])
            env = op.get('env', 'full')
            d = objects.same(want, val) if env == 'full' else objects.recovered(want, val, env)
            if d is None:
                self.ev['val'] = v['n']
                if objects.degraded(want, env) and 'DataRecoveredWarning' not in warned and objects.degraded(want, env) != 'pickle':
                    self.bad('no-warning', 'data was recovered without a DataRecoveredWarning')
                return
            diffs.append(d)
        self.bad('wrong', 'load returned something else: %s' % '; '.join(diffs[:2]), why=slot.why, ctx=op.get('tag'),
                 fault=level)

    def content(self, op, s):
        if s is not None:
            return hashlib.md5(s.getvalue()).hexdigest()
        if op['via'] in ('handle', 'group'):
            h = self.handles[op['h']]
            if not h:
                return None
            armed = self.h5.armed
            self.h5.armed = False
            try:
                return snapshot(h) if h.mode == 'r+' else file_hash(self.p(op['file']))
            finally:
                self.h5.armed = armed
        return file_hash(self.p(op['file']))

    def op_open(self, op):
        h = op['h']
        try:
            self.handles[h] = h5py.File(self.p(op['file']), op['mode'],
                                        **{k: tuple(v) if isinstance(v, list) else v for k, v in op.get('fkw', {}).items()})
        except OSError as e:
            self.cannot_open(op, e)
            return
        m = self.handles[h].mode
        self.ev.update(res='ok')
        self.open_model(op, m)

    def cannot_open(self, op, e):
        self.ev.update(res='raise')
        fs = self.model.files.get(op['file'])
        if fs is not None and fs.exists and fs.sure and not fs.void and op.get('mode', 'a') in ('r', 'r+', 'a') and not self.model.handle_on(op['file']) \
                and not any(x.why == 'rotten' for x in fs.slots.values()):
            self.bad('lost', 'a file all of whose dumps were acknowledged can not be opened: %s' % e, why='open')

    def open_model(self, op, m):
        self.model.handles[op['h']] = (op['file'], m, True)
        fs = self.model.files.get(op['file'])
        if fs is None or not fs.exists or op['mode'] == 'w':
            self.model.files[op['file']] = FileState()
        elif not fs.sure:
            fs.sure = True
            for s in fs.slots.values():
                s.dirty = True

    def op_close(self, op):
        h = self.handles.get(op['h'])
        if h is None:
            return
        try:
            h.close()
        except Exception as e:
            self.ev['exc'] = type(e).__name__
        f, m, _ = self.model.handles[op['h']]
        self.model.handles[op['h']] = (f, m, False)
        self.ev['res'] = 'ok'

    def op_mkgroup(self, op):
        h = self.handles.get(op['h'])
        if h:
            h.require_group(op['base'])
            self.model.files[op['file']].groups.update(parents(norm(op['base'])))

    def op_foreign(self, op):
        """the user stores data of his own next to hickle's"""
        data = objects.array_of('float64', (op['n'],), op['seed'])
        if op.get('h'):
            h = self.handles.get(op['h'])
            if not h or h.mode == 'r':
                return
            h[op['name']] = data
            h.attrs['user_' + op['name'].replace('/', '_')] = op['seed']
        else:
            try:
                h = h5py.File(self.p(op['file']), 'a')
            except OSError as e:
                self.cannot_open(op, e)
                return
            with h:
                h[op['name']] = data
                h.attrs['user_' + op['name'].replace('/', '_')] = op['seed']
        fs = self.model.files.get(op['file'])
        if fs is None or not fs.exists:
            fs = self.model.files[op['file']] = FileState()
        fs.foreign[op['name']] = [op['n'], op['seed']]
        self.ev['res'] = 'ok'

    def op_uattr(self, op):
        """the user attaches an attribute of his own to a group hickle may dump to"""
        def put(h):
            h.require_group(op['base']).attrs[op['name']] = op['val']
        if op.get('h'):
            h = self.handles.get(op['h'])
            if not h or h.mode == 'r':
                return
            put(h)
        else:
            try:
                h = h5py.File(self.p(op['file']), 'a')
            except OSError as e:
                self.cannot_open(op, e)
                return
            with h:
                put(h)
        fs = self.model.files.get(op['file'])
        if fs is None or not fs.exists:
            fs = self.model.files[op['file']] = FileState()
        fs.groups.update(parents(norm(op['base'])))
        fs.uattrs['%s %s' % (norm(op['base']), op['name'])] = op['val']
        self.ev['res'] = 'ok'

    def op_audit(self, op):
        """read everything back, as a user who restarted would"""
        n = 0
        evs = []
        main = self.ev
        for f in sorted(self.model.files):
            fs = self.model.files[f]
            if fs.void or self.model.handle_on(f):
                continue
            via = STREAM_VIA.get(f, 'str')
            if via == 'str' and not os.path.exists(self.p(f)):
                if fs.exists and fs.sure and any(s.must for s in fs.slots.values()):
                    self.bad('lost', 'file %s disappeared' % f, why='gone')
                continue
            for path in sorted(fs.slots):
                self.ev = {'op': 'load', 'file': f, 'path': path}
                sub = {'op': 'load', 'file': f, 'via': via, 'path': path}
                if op.get('env'):
                    sub['env'] = op['env']
                self.op_load(sub)
                n += 1
                evs.append([f, path, self.ev.get('res'), self.ev.get('exc'), self.ev.get('val'), self.ev.get('want')])
                main.setdefault('v', []).extend(self.ev.get('v', ()))
            if (fs.foreign or fs.uattrs) and fs.sure and via == 'str':
                try:
                    with h5py.File(self.p(f), 'r') as h:
                        for key, val in fs.uattrs.items():
                            base, name = key.rsplit(' ', 1)
                            if base not in h or h[base].attrs.get(name) != val:
                                self.ev = main
                                self.bad('foreign', "the user's own attribute %s of %s in %s changed" % (name, base, f))
                        for name, (k, seed) in fs.foreign.items():
                            if name not in h or not np.array_equal(h[name][()], objects.array_of('float64', (k,), seed), equal_nan=True) \
                                    or h.attrs.get('user_' + name.replace('/', '_')) != seed:
                                self.ev = main
                                self.bad('foreign', "the user's own dataset %s of %s changed" % (name, f))
                except OSError as e:
                    self.ev = main
                    self.bad('foreign', 'file with user data can not be opened: %s' % e)
        self.ev = main
        if not main.get('v'):
            main.pop('v', None)
        main.update(res='ok', n=n, loads=evs)

    def op_gc(self, op):
        self.ev['res'] = 'ok'
        if op.get('drop'):
            self.held.clear()
        gc.collect()

    def op_gcstate(self, op):
        (gc.enable if op['on'] else gc.disable)()
        self.ev['res'] = 'ok'

    def op_warm(self, op):
        """unrelated use of hickle earlier in the life of the process"""
        self.op_dump(op['dump'])

    def op_forget(self, op):
        self.model.files.pop(op['file'], None)
        self.ev['res'] = 'ok'

    def op_cmpfiles(self, op):
        """two dumps of the same object with the same arguments store the same thing"""
        a, b = self.p(op['a']), self.p(op['b'])
        pa, pb = op.get('pa', '/'), op.get('pb', '/')
        try:
            with h5py.File(a, 'r') as f, h5py.File(b, 'r') as g:
                sa, sb = snapshot(f, pa), snapshot(g, pb)
        except (OSError, KeyError, RuntimeError) as e:
            self.ev['res'] = 'raise'
            self.ev['exc'] = type(e).__name__
            return
        sa, sb = _relative(sa, pa), _relative(sb, pb)
        self.ev['res'] = 'ok'
        self.ev['equal'] = sa == sb
        if sa != sb:
            self.bad('stored-differently', 'the same dump stored something else: %s' % _delta(sa, sb))

    def op_legacy(self, op):
        from model import Slot
        dst = os.path.join(self.side, op['file']) if op['file'] in STREAM_VIA else self.p(op['file'])
        fs = self.model.files[op['file']] = FileState()
        if op.get('rec'):
            import legacy
            tmp = os.path.join(self.side, 'tmp.legacy')
            legacy.write(tmp, op['version'], op['at'], op['rec'])
            shutil.move(tmp, dst)
            fs.slots[op['at']] = Slot([{'rec': ['legacy', op['version'], op['rec']], 'n': 0}], True, 'legacy')
            fs.groups.update(parents(op['at'] if op['at'] != '/' else '/data'))
        else:
            shutil.copyfile(os.path.join(self.ctx.legacy, LEGACY[op['version']]), dst)
            fs.slots['/test' if op['version'] == 'v3' else '/'] = Slot([{'rec': ['legacy', op['version']], 'n': 0}], True, 'legacy')
        fs.groups.add('/data')
        self.ev['res'] = 'ok'

    def op_rot(self, op):
        """flip one bit of the stored payload of one dataset of the object"""
        fn = self.p(op['file'])
        spans = []
        try:
            with h5py.File(fn, 'r') as f:
                def visit(name, o):
                    if not isinstance(o, h5py.Dataset) or o.shape in (None, ()):
                        return
                    if o.chunks is not None:
                        for k in range(o.id.get_num_chunks()):
                            ci = o.id.get_chunk_info(k)
                            if ci.size:
                                spans.append([name, ci.byte_offset, ci.size])
                    else:
                        off = o.id.get_offset()
                        if off is not None and o.id.get_storage_size():
                            spans.append([name, off, o.id.get_storage_size()])
                f.visititems(visit)
        except OSError:
            pass
        self.ev['res'] = 'ok'
        if not spans:
            self.ev['rot'] = None
            return
        name, off, size = spans[int(op['pick'] * len(spans)) % len(spans)]
        k = int(op['frac'] * size) % size
        with open(fn, 'r+b') as f:
            f.seek(off + k)
            b = f.read(1)[0]
            f.seek(off + k)
            f.write(bytes([b ^ (1 << op['bit'])]))
        self.ev['rot'] = [name, k, size]
        fs = self.model.files.get(op['file'])
        for s in fs.slots.values():
            s.must = False
            s.why = 'rotten'

    def op_truncate(self, op):
        """the medium lost the tail of the file"""
        fn = self.p(op['file'])
        if not os.path.exists(fn):
            self.ev['res'] = 'skip'
            return
        n = os.path.getsize(fn)
        with open(fn, 'r+b') as f:
            f.truncate(int(n * op['frac']))
        for s in self.model.files[op['file']].slots.values():
            s.must = False
            s.why = 'rotten'
        self.ev['res'] = 'ok'

    # ------------------------------------------------------------ threads

    def op_par(self, op):
        tracks = op['tracks']
        results = [[] for _ in tracks]
        S = sched.Sched(self.lines, op['sched'], len(tracks))
        gc0 = gc.isenabled()
        nfiles, fds = seams.open_h5_files(), self.disk.open_fds()
        bombs = {}
        for t in tracks:
            for o in t:
                if o.get('bombtag'):
                    bombs[o['bombtag'][0]] = EXCS[o['bombtag'][1]]
        if bombs:
            import simworld

            def armed(phase, tag):
                if tag in bombs and phase == 'dump':
                    raise bombs[tag]('injected in user callback')
            simworld.Bomb.armed = armed
        built = {}
        for t in tracks:
            for o in t:
                if o['op'] == 'dump':
                    built[id(o)] = objects.build(o['obj'])

        def body(t):
            def go():
                for o in tracks[t]:
                    ev = {'op': o['op'], 'file': o['file']}
                    kw = {}
                    if o.get('path', '/') != '/':
                        kw['path'] = o['path']
                    if o['via'] == 'handle':
                        tgt, pf = self.handles[o['h']], None
                    elif o['via'] in ('stream', 'lean', 'bytesio'):
                        s = self.stream(o['file'], flavour='lean' if o['via'] == 'lean' else 'io')
                        if o['op'] == 'dump' and o['mode'].startswith('w'):
                            s._b.seek(0)
                            s._b.truncate()
                        tgt, pf = (s._b if o['via'] == 'bytesio' else s), None
                    else:
                        tgt, pf = self.p(o['file']), None
                    try:
                        if o['op'] == 'dump':
                            kw.update(o.get('kw', {}))
                            if o.get('options'):
                                kw['options'] = dict(o['options'])
                            hickle.dump(built[id(o)], tgt, mode=o['mode'], **kw)
                            ev['res'] = 'ok'
                        else:
                            if o.get('inside'):
                                # the user walks through his file; h5py holds its lock meanwhile
                                for name, node in tgt.items():
                                    if '/' + name == o['path']:
                                        ev['value'] = hickle.load(node)
                            else:
                                ev['value'] = hickle.load(tgt, **kw)
                            ev['res'] = 'ok'
                    except sched.Deadlock:
                        ev['res'] = 'deadlock'
                        results[t].append((o, ev, None))
                        raise
                    except BaseException as e:
                        ev['res'] = 'raise'
                        ev['exc'] = e.with_traceback(None)
                    results[t].append((o, ev, None))
                return 'done'
            return go
        res, finished = S.run([body(t) for t in range(len(tracks))])
        if bombs:
            simworld.Bomb.armed = None
        self.ev.update(res='ok', steps=S.step, nswitch=len(S.switches), blocks=S.blocks)
        self.ev['switches'] = S.switches
        if not finished:
            self.ev['res'] = 'stuck'
            return
        for r in res:
            if isinstance(r, str) and r.startswith('harness'):
                raise RuntimeError(r)
        if S.deadlock:
            self.bad('deadlock', S.deadlock)
            self.doomed = True
            return
        gc.collect()
        if gc.isenabled() != gc0:
            self.bad('gcstate', 'garbage collector was %s, is %s after all threads returned' % (gc0, gc.isenabled()))
        if seams.open_h5_files() != nfiles:
            self.bad('leak', '%d HDF5 files open before, %d after all threads returned' % (nfiles, seams.open_h5_files()))
        summary = []
        # histories: contended files are judged against every object any thread may have left there
        self.par = True
        for t, evs in enumerate(results):
            for o, ev, _ in evs:
                self.judge_par(t, o, ev, tracks)
                summary.append([t, o['op'], o['file'], ev['res'], type(ev.get('exc')).__name__ if ev.get('exc') is not None else None])
        self.par = None
        self.ev['threads'] = summary
        # bring the model up to date
        for t, evs in enumerate(results):
            for o, ev, _ in evs:
                if o['op'] == 'dump':
                    if o.get('shared'):
                        self.after_shared(o, ev)
                    elif o.get('bombtag'):
                        self.model.dump_done(o, ev['res'], 'py' if ev['res'] == 'raise' else 'none', {}, self.model.predict_dump(o))
                    else:
                        self.model.dump_done(o, ev['res'], 'none', {}, self.model.predict_dump(o))
        for f in {o['file'] for t in tracks for o in t if o['via'] in ('stream', 'lean', 'bytesio')}:
            if f in self.streams:
                self.save_stream(f)

    def after_shared(self, o, ev):
        from model import Slot
        fs = self.model.files.setdefault(o['file'], FileState())
        path = norm(o.get('path', '/'))
        val = {'rec': o['obj'], 'n': -1}
        s = fs.slots.get(path)
        if s is None:
            s = fs.slots[path] = Slot([], False, 'contended', True)
        s.vals.append(val)
        s.must = False
        s.why = 'contended'
        if o['via'] == 'handle' and ev['res'] == 'ok':
            # nobody truncates a file through a handle: acknowledged means stored
            fs.slots[path] = Slot([val], True, 'acked')
        fs.groups.update(parents(path))

    def judge_par(self, t, o, ev, tracks):
        alone = not o.get('shared')
        exc = ev.get('exc')
        if o['op'] == 'dump':
            if ev['res'] == 'raise' and alone and not o.get('bombtag'):
                self.bad('thread-dump-failed', 'thread %d: dump to its own file raised %s: %s' % (t, type(exc).__name__, str(exc)[:300]))
            if ev['res'] == 'raise' and not alone and not isinstance(exc, Exception):
                self.bad('thread-dump-failed', 'thread %d: dump raised %s' % (t, type(exc).__name__))
            return
        if alone:
            # the state before the par op, advanced by this thread's own dumps
            vals = None
            for o2 in tracks[t]:
                if o2 is o:
                    break
                if o2['op'] == 'dump' and o2['file'] == o['file'] and norm(o2.get('path', '/')) == norm(o.get('path', '/')):
                    vals = [o2]
            if vals and vals[0].get('bombtag'):
                if ev['res'] == 'ok':
                    d = objects.same(objects.build(vals[0]['obj']), ev['value'])
                    if d is not None:
                        self.bad('thread-wrong', 'thread %d: partial object after failed dump: %s' % (t, d))
                return
            if vals is None:
                fs = self.model.files.get(o['file'])
                s = fs.slots.get(norm(o.get('path', '/'))) if fs else None
                if s is None or not s.must:
                    return
                want = s.vals[0]['rec']
            else:
                want = vals[0]['obj']
            if ev['res'] == 'raise':
                self.bad('thread-lost', 'thread %d: load from its own file raised %s: %s' % (t, type(exc).__name__, str(exc)[:300]))
                return
            d = objects.same(objects.build(want), ev['value'])
            if d is not None:
                self.bad('thread-wrong', 'thread %d: %s' % (t, d))
            return
        if ev['res'] == 'raise':
            if not isinstance(exc, Exception):
                self.bad('thread-lost', 'thread %d: load raised %s' % (t, type(exc).__name__))
            return
        cands = [o2['obj'] for tr in tracks for o2 in tr if o2['op'] == 'dump' and o2['file'] == o['file']
                 and norm(o2.get('path', '/')) == norm(o.get('path', '/'))]
        fs = self.model.files.get(o['file'])
        s = fs.slots.get(norm(o.get('path', '/'))) if fs else None
        if s is not None:
            cands += [v['rec'] for v in s.vals]
        for c in cands:
            if objects.same(objects.build(c), ev['value']) is None:
                return
        self.bad('thread-wrong', 'thread %d: load of a file other threads write returned no object anybody dumped: %s' % (
            t, objects.same(objects.build(cands[0]), ev['value']) if cands else objects._short(ev['value'])))


def _relative(snap, root):
    txt = json.dumps(snap, default=str)
    r = root.rstrip('/')
    if r:
        txt = txt.replace('"%s/' % r, '"/').replace('"%s"' % r, '"/"')
    return json.loads(txt)


def _delta(a, b):
    if not isinstance(a, list) or not isinstance(b, list):
        return '%s -> %s' % (str(a)[:80], str(b)[:80])
    for x, y in zip(a, b):
        if x != y:
            return '%s -> %s' % (str(x)[:250], str(y)[:250])
    return '%d -> %d entries, first extra %s' % (len(a), len(b), str((a + b)[min(len(a), len(b))])[:200])
