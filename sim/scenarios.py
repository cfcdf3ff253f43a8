"""What is simulated for each property: seeded workloads, fault plans, and which of the
violations the world reports belong to the property.
"""
import copy
import random

import objects
from model import Model, norm, parents
from seams import A_CRASH, A_ERR, A_SHORT, CLOSE, LOCK, OPEN, READ, SYNC, TRUNC, WRITE

FILES = ['f0.h5', 'f1.hkl', 'f2.h5', 'f0.hkl']
STREAMS = {'s0': 'stream', 's1': 'lean', 's2': 'bytesio'}
PATHS = ['/', '/', '/', '/a', '/a', 'b', '/c d', '/d/e', '/d/f', '/a/sub', '/\u00fc', 'x.y', '/d/e/g/h']
GPATHS = ['/', '/', 'k', '/k', '/kk', 'k/k', '/grp', '/grp/in', 'grp/in/x', '/grpx', '/in', 'b', '/d/e', '']
KWS = [{}, {}, {}, {}, {'compression': 'gzip'}, {'compression': 'lzf', 'shuffle': True}, {'fletcher32': True},
       {'compression': 'gzip', 'compression_opts': 9, 'shuffle': True, 'fletcher32': True}, {}, {}, {'chunks': True}, {'compression': 4},
       {'compression': 'gzip', 'compression_opts': 0}, {'shuffle': True}, {'track_times': False}, {'compression': True}, {'chunks': True, 'compression': 'lzf'},
       {'compression': None, 'scaleoffset': None}, {'fletcher32': False, 'shuffle': False}, {'track_order': True}]
EIO, ENOSPC, EINTR, EDQUOT, EACCES, EMFILE, EAGAIN = 5, 28, 4, 122, 13, 24, 11


def respell(rng, path):
    """another spelling of the same path"""
    x = rng.random()
    if x < .8:
        return path
    bare = path.strip('/')
    if not bare:
        return rng.choice(['/', '', '.', '//'])
    return rng.choice([bare, '/' + bare, bare + '/', '/' + bare + '/', './' + bare, bare.replace('/', '//'), '/' + bare.replace('/', '/./')])


# how the user may have opened a file of his own
FKWS = [{'libver': 'latest'}, {'libver': ['earliest', 'v110']}, {'rdcc_nbytes': 0}, {'driver': 'core'}, {'driver': 'sec2'}, {'alignment_threshold': 1, 'alignment_interval': 64}]
FKWS_NEW = [{'track_order': True}, {'userblock_size': 512}, {'fs_strategy': 'page', 'fs_persist': True}, {'fs_strategy': 'none'}, {'libver': 'latest', 'track_order': True}]


class Hist:
    """a seeded user: keeps an optimistic copy of the model to produce sensible histories"""

    def __init__(self, rng, **k):
        self.rng = rng
        self.m = Model()
        self.k = dict(files=2, streams=1, size=10, bombs=False, custom=.25, handles=True, pyfiles=True, refused=.08,
                      missing=.04, foreign=.03, gc=.03, hold=False, vias=None, overwrite=.35, fkw=0)
        self.k.update(k)
        self.files = rng.sample(FILES, self.k['files'])
        self.streams = rng.sample(sorted(STREAMS), self.k['streams'])
        self.nh = 0
        self.ops = []

    def obj(self, custom=False, size=None):
        rng = self.rng
        g = objects.Gen(rng, custom=custom, always=rng.random() < .3, bombs=self.k['bombs'],
                        size=size or rng.choice([2, 4, 6, self.k['size'], self.k['size']]),
                        astropy=rng.random() < .7)
        r = g.top()
        if self.k['bombs'] and rng.random() < .8:
            # at least one callback inside, at a random place among other items
            items = [r, ['bomb', 'bx']] + [g.leaf() for _ in range(rng.randint(0, 2))]
            rng.shuffle(items)
            r = rng.choice([['list', items], ['tuple', items],
                            ['dict', [[['str', 'k%d' % i], x] for i, x in enumerate(items)]]])
        return r

    def open_handles(self, f=None):
        return [h for h, (hf, m, o) in self.m.handles.items() if o and (f is None or hf == f)]

    def add(self, op):
        """appends op and advances the optimistic model"""
        self.ops.append(op)
        k = op['op']
        m = self.m
        if k == 'dump':
            pred = m.predict_dump(op)
            m.dump_done(op, 'ok' if pred[0] == 'ok' else 'raise', 'none', {}, pred)
            if op['via'] == 'group' and pred[0] == 'ok':
                m.files[op['file']].groups.update(parents(norm(op['base'])))
        return op

    def dump_op(self, f=None, **force):
        rng = self.rng
        custom = rng.random() < self.k['custom']
        if f is None:
            f = rng.choice(self.files + self.streams)
        fs = self.m.files.get(f)
        exists = fs is not None and fs.exists
        op = {'op': 'dump', 'file': f, 'obj': self.obj(custom), 'kw': rng.choice(KWS)}
        if custom:
            op['options'] = {'custom': True}
        elif rng.random() < .1:
            op['options'] = {'custom': False}
        hs = self.open_handles(f)
        if f in STREAMS:
            op['via'] = STREAMS[f]
            op['mode'] = rng.choice(['w', 'w', 'w', 'wb', 'w+', 'w+b', 'wb+']) if not exists or rng.random() < self.k['overwrite'] else \
                rng.choice(['r+', 'r+', 'r+', 'r+b', 'rb+', 'a', 'ab', 'a+'])
            if op['via'] != 'bytesio':
                x = rng.random()
                if x < .2:
                    op['wrap'] = rng.choice(['tuple', 'dict'])
                elif x < .4:
                    op['fn'] = 'nm.h5'
        elif hs:
            op['h'] = rng.choice(hs)
            op['mode'] = rng.choice(['w', 'a', 'r+'])
            if rng.random() < .3:
                op['via'] = 'group'
                op['base'] = rng.choice(['/grp', '/grp/in', '/k'])
                if self.m.handles[op['h']][1] != 'r':
                    self.ops.append({'op': 'mkgroup', 'h': op['h'], 'file': f, 'base': op['base']})
                    fs.groups.update(parents(op['base']))
                elif op['base'] not in fs.groups:
                    op['via'] = 'handle'
                    op.pop('base')
            else:
                op['via'] = 'handle'
        else:
            op['mode'] = rng.choice(['w', 'wb', rng.choice(['x', 'xb']) if rng.random() < .5 else 'w', 'a']) if not exists else \
                (rng.choice(['w', 'w', 'wb']) if rng.random() < self.k['overwrite'] else rng.choice(['a', 'r+', 'r+b', 'rb+', 'ab']))
            vias = ['str', 'str', 'str', 'path']
            if self.k['pyfiles'] and op['mode'] in ('w', 'r+', 'wb', 'r+b', 'rb+'):
                vias += ['pyfile', 'tuple', 'dict']
            op['via'] = rng.choice(vias)
            if op['via'] in ('pyfile', 'tuple', 'dict') and op['mode'][0] == 'w' and rng.random() < .3:
                op['mode'] = rng.choice(['w+', 'wb+', 'w+b'])
            elif op['via'] in ('pyfile', 'tuple', 'dict') and exists and op['mode'][0] == 'r' and rng.random() < .3:
                op['mode'] = rng.choice(['a', 'ab', 'a+'])
        op['path'] = self.free_path(op)
        op.update(force)
        return op

    def free_path(self, op):
        """mostly a path a dump would accept, sometimes an occupied one"""
        rng = self.rng
        cand = (GPATHS if op['via'] == 'group' else PATHS)[:]
        rng.shuffle(cand)
        if rng.random() < .06:
            return cand[0]
        for p in cand:
            op['path'] = p
            if self.m.predict_dump(op)[0] == 'ok':
                return respell(rng, p)
        return cand[0]

    def load_op(self, f=None, path=None, **force):
        rng = self.rng
        slots = [(g, p) for g, fs in self.m.files.items() for p, s in fs.slots.items() if s.must and (f is None or g == f)]
        if not slots or rng.random() < self.k['missing']:
            f = f or rng.choice(self.files)
            path = path or rng.choice(PATHS)
        else:
            f, path = rng.choice(sorted(slots))
        op = {'op': 'load', 'file': f, 'path': respell(rng, path)}
        hs = self.open_handles(f)
        if f in STREAMS:
            op['via'] = STREAMS[f]
        elif hs:
            op['h'] = rng.choice(hs)
            op['via'] = 'handle'
            for base in ('/grp/in', '/grp', '/k', '/a', '/d'):
                fs = self.m.files[f]
                if path.startswith(base + '/') and base in fs.groups and rng.random() < .6:
                    op.update(via='group', base=base, path=respell(rng, path[len(base) + 1:]))
                    break
                if path == base and base in fs.groups and rng.random() < .6:
                    op.update(via='group', base=base, path=respell(rng, '/'))
                    break
        else:
            op['via'] = rng.choice(['str', 'str', 'str', 'path'] + (['pyfile', 'tuple', 'dict'] if self.k['pyfiles'] and f in self.m.files else []))
        op.update(force)
        return op

    def refused_op(self):
        rng = self.rng
        f = rng.choice(self.files)
        fs = self.m.files.get(f)
        kind = rng.choice(['occupied', 'x', 'r+', 'ro', 'closed', 'option', 'wopen', 'r', 'missing', 'nofile', 'optionw'])
        base = {'op': 'dump', 'file': f, 'obj': self.obj(size=3), 'kw': {}, 'via': 'str', 'mode': 'a', 'path': '/', 'tag': 'refused'}
        hs = self.open_handles(f)
        if kind == 'occupied' and fs and fs.exists:
            ps = [p for p, s in fs.slots.items() if s.must]
            if ps:
                base['path'] = rng.choice(sorted(ps))
                if hs:
                    base.update(via='handle', h=hs[0])
                return base
        if kind == 'x' and fs and fs.exists and not hs:
            base['mode'] = 'x'
            return base
        if kind == 'r+' and not (fs and fs.exists):
            base['mode'] = 'r+'
            return base
        if kind == 'ro':
            ro = [h for h in self.open_handles() if self.m.handles[h][1] == 'r']
            if ro:
                base.update(via='handle', h=ro[0], file=self.m.handles[ro[0]][0], path='/new')
                return base
        if kind == 'closed':
            cl = [h for h, (hf, m, o) in self.m.handles.items() if not o]
            if cl:
                base.update(via='handle', h=cl[0], file=self.m.handles[cl[0]][0], path='/new')
                return base
        if kind == 'option' and not hs:
            base['options'] = rng.choice([{'nosuch': True}, {'custom': True, 'nosuch': True}])
            base['path'] = self.free_path(base)
            return base
        if kind == 'optionw' and hs and self.m.handles[hs[0]][1] != 'r':
            base.update(options={'nosuch': True}, via='handle', h=hs[0])
            base['path'] = self.free_path(base)
            return base
        if kind == 'wopen' and hs:
            base['mode'] = 'w'
            return base
        if kind == 'r' and fs and fs.exists and not hs:
            base['mode'] = 'r'
            base['path'] = '/nosuch'
            return base
        if kind == 'nofile':
            return {'op': 'load', 'file': 'nofile.h5', 'path': '/', 'via': 'str'}
        return {'op': 'load', 'file': f, 'path': rng.choice(['/zz', '/a/zz', '/zz/y']), 'via': 'handle' if hs else 'str',
                **({'h': hs[0]} if hs else {})}

    def step(self):
        rng = self.rng
        x = rng.random()
        k = self.k
        if x < k['refused']:
            op = self.refused_op()
            if k['hold'] and rng.random() < .5:
                op['hold'] = rng.choice(['list', 'cycle'])
            return self.add(op)
        x -= k['refused']
        if x < k['gc']:
            return self.add({'op': 'gc', 'drop': rng.random() < .5})
        x -= k['gc']
        if x < k['foreign']:
            f = rng.choice(self.files)
            hs = self.open_handles(f)
            if hs and self.m.handles[hs[0]][1] == 'r':
                return None
            if rng.random() < .6:
                op = {'op': 'uattr', 'file': f, 'base': rng.choice(['/', '/', '/a', '/grp', '/d/e', '/b']), 'name': rng.choice(['unit', 'HICKLE_NOTE', 'type2']),
                      'val': rng.randint(0, 999), **({'h': hs[0]} if hs else {})}
                self.ops.append(op)
                from model import FileState
                fs = self.m.files.get(f)
                if fs is None or not fs.exists:
                    fs = self.m.files[f] = FileState()
                fs.groups.update(parents(op['base']))
                return op
            op = {'op': 'foreign', 'file': f, 'name': 'user%d' % rng.randint(0, 10**6), 'n': rng.choice([1, 7, 300]), 'seed': rng.getrandbits(16)}
            if hs:
                if self.m.handles[hs[0]][1] == 'r':
                    return None
                op['h'] = hs[0]
            self.ops.append(op)
            from model import FileState
            fs = self.m.files.get(f)
            if fs is None or not fs.exists:
                fs = self.m.files[f] = FileState()
            fs.foreign[op['name']] = [op['n'], op['seed']]
            return op
        x -= k['foreign']
        if k['handles'] and x < .08:
            open_ = self.open_handles()
            if open_ and rng.random() < .6:
                h = rng.choice(open_)
                self.ops.append({'op': 'close', 'h': h})
                f, m, _ = self.m.handles[h]
                self.m.handles[h] = (f, m, False)
                return
            f = rng.choice(self.files)
            if self.open_handles(f):
                return
            fs = self.m.files.get(f)
            mode = rng.choice(['r', 'r+', 'r+', 'a']) if fs and fs.exists else rng.choice(['a', 'w'])
            h = 'h%d' % self.nh
            self.nh += 1
            self.ops.append({'op': 'open', 'h': h, 'file': f, 'mode': mode})
            if rng.random() < self.k['fkw']:
                new = not (fs and fs.exists) or mode == 'w'
                if new:
                    self.ops[-1]['mode'] = mode = 'w'
                self.ops[-1]['fkw'] = dict(rng.choice(FKWS + FKWS_NEW if new else FKWS))
            self.m.handles[h] = (f, 'r' if mode == 'r' else 'r+', True)
            if not (fs and fs.exists) or mode == 'w':
                from model import FileState
                self.m.files[f] = FileState()
            return
        have = any(s.must for fs in self.m.files.values() for s in fs.slots.values())
        if rng.random() < (.58 if have else .95):
            return self.add(self.dump_op())
        return self.add(self.load_op())

    def life(self, n, end='exit', env=None):
        self.ops = []
        tries = 0
        while len(self.ops) < n and tries < n * 3:
            tries += 1
            self.step()
        self.m.handles.clear()
        out = {'ops': self.ops, 'end': end}
        if env:
            out['env'] = env
        return out


def legacy_op(rng, f, **k):
    """an old file appears: one of the two found in the repository, or one written by the simulator"""
    import legacy
    v = k.pop('version', None) or rng.choice(['v3', 'v4', 'v4'])
    op = {'op': 'legacy', 'file': f, 'version': v}
    if rng.random() < .7:
        op['rec'] = legacy.Gen(rng, v, rng.choice([3, 8, 20]), **k).node()
        op['at'] = rng.choice(['/', '/test', '/d/e'])
    return op


def legacy_at(op):
    return op['at'] if op.get('rec') else '/test' if op['version'] == 'v3' else '/'


def tiny(rng, p, *lives):
    """with the smallest metadata cache?  (h5py misreads the end of file-like objects that lack readinto)"""
    return rng.random() < p and not any(o.get('via') == 'lean' for l in lives for o in l['ops'])


def audit(**k):
    return {'ops': [dict({'op': 'audit'}, **k)], 'end': 'exit'}


# ---------------------------------------------------------------------- fault choice

def pick_nth(rng, n):
    """a position among n, biased towards both ends"""
    x = rng.random()
    if x < .15:
        return rng.randrange(min(n, 3))
    if x < .3:
        return n - 1 - rng.randrange(min(n, 3))
    return rng.randrange(n)


def io_fault(name, kinds, nth, act, arg, sticky=0, **k):
    return dict(t='io', name=name, kinds=kinds, nth=nth, act=act, arg=arg, sticky=sticky, **k)


def benign(rng, counts):
    """legal but unusual results every reader and writer of files has to cope with"""
    out = []
    kinds = [(k, n) for k, n in ((READ, counts.get('io_read', 0)), (WRITE, counts.get('io_write', 0))) if n]
    for k, n in kinds:
        nm = 'read' if k == READ else 'write'
        c = rng.random()
        if c < .4:
            out.append(io_fault('short-' + nm, k, 0, A_SHORT, rng.choice([7, 100, 511, 3000]), 1, benign=True))
        elif c < .7:
            out.append(io_fault('short-' + nm, k, rng.randrange(n), A_SHORT, rng.choice([1, 13, 1000]), 0, benign=True))
        elif c < .9:
            out.append(io_fault('eintr-' + nm, k, rng.randrange(n), A_ERR, EINTR, 0, benign=True))
    return out


def dump_disk_fault(rng, counts):
    n = counts.get('io', 0)
    if not n:
        return []
    err = rng.choice([EIO, ENOSPC, ENOSPC, EDQUOT])
    w = counts.get('io_write', 0)
    x = rng.random()
    if w and x < .6:
        return [io_fault('err-write', WRITE | TRUNC | SYNC, pick_nth(rng, w), A_ERR, err, 1)]
    if x < .75:
        return [io_fault('err-any', READ | WRITE | TRUNC | SYNC, pick_nth(rng, n), A_ERR, EIO, 1)]
    if x < .85:
        return [io_fault('err-open', OPEN, 0, A_ERR, rng.choice([EACCES, EMFILE, ENOSPC, EIO]), 1)]
    if x < .9:
        return [io_fault('err-lock', LOCK, 0, A_ERR, EAGAIN, 1)]
    return [io_fault('err-truncate', TRUNC, pick_nth(rng, max(1, counts.get('io_truncate', 1))), A_ERR, err, 1)]


def h5_fault(rng, counts, excs=('OSError', 'RuntimeError', 'MemoryError', 'KeyboardInterrupt'), sticky=.15, only=None):
    n = counts.get('h5', 0)
    if not n:
        return []
    sites = counts.get('h5sites')
    if sites and not only and rng.random() < .5:
        # every kind of call gets its share, not only the frequent ones
        site = rng.choice(sorted(sites))
        only, n = [site], sites[site]
    return [dict(t='h5', nth=pick_nth(rng, n), exc=rng.choice(excs), sticky=int(rng.random() < sticky), **({'only': only} if only else {}))]


def h5_any_fault(rng, counts):
    return h5_fault(rng, counts, excs=tuple(h5_excs))


h5_excs = ('OSError', 'OSError', 'RuntimeError', 'RuntimeError', 'MemoryError', 'KeyboardInterrupt', 'ValueError', 'TypeError', 'KeyError')


def bomb_fault(rng, counts, excs=('RuntimeError', 'KeyboardInterrupt', 'MemoryError', 'ValueError', 'TypeError', 'OSError', 'SystemExit', 'AttributeError')):
    n = counts.get('bomb', 0)
    return [dict(t='bomb', nth=rng.randrange(n), exc=rng.choice(excs))] if n else []


def warn_fault(rng, counts):
    """the user turned warnings into errors"""
    return [dict(t='warn')]


def import_fault(rng, counts):
    n = counts.get('import', 0)
    return [dict(t='import', nth=rng.randrange(n), exc=rng.choice(['ImportError', 'KeyboardInterrupt', 'MemoryError', 'OSError']),
                 when=rng.choice(['before', 'after', rng.randrange(12), rng.randrange(12)]))] if n else []


def stream_fault(rng, counts, sticky=1):
    n = counts.get('stream', 0)
    return [dict(t='stream', nth=pick_nth(rng, n), exc='OSError', sticky=sticky)] if n else []


def line_fault(rng, counts):
    n = counts.get('line', 0)
    return [dict(t='line', nth=pick_nth(rng, n), exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SystemExit']))] if n else []


def targets(plan, result, kinds=('dump',), pred='ok'):
    """(life, index, counts) of the operations of the fault-free run that really did something"""
    out = []
    for li, evs in enumerate(result['events']):
        for ev in evs:
            if ev['op'] in kinds and ev.get('res') == 'ok' and ev.get('counts'):
                out.append((li, ev['i'], ev['counts']))
    return out


def with_fault(plan, li, i, faults, cut=False):
    p = copy.deepcopy(plan)
    p['lives'][li]['ops'][i]['faults'] = faults
    return p


# ---------------------------------------------------------------------- the properties

class Prop:
    id = None
    classes = ()
    quick = (400, 3)        # base seeds, fault variants per base seed
    thorough = (6000, 6)
    checks = ()
    base_counts = True

    def base(self, rng):
        raise NotImplementedError

    def variants(self, rng, plan, result, n):
        return []

    def mine(self, v):
        return v['cls'] in self.classes


class C01(Prop):
    id = 'C01'
    classes = ('dump-failed', 'lost', 'wrong', 'phantom', 'native-crash')
    quick, thorough = (1500, 1), (30000, 2)

    def base(self, rng):
        h = Hist(rng, files=rng.choice([1, 2, 2, 3]), streams=rng.choice([0, 0, 1, 2]), size=rng.choice([4, 8, 14, 25]),
                 refused=.04, foreign=.02, fkw=.3)
        lives = [h.life(rng.randint(2, 7)) for _ in range(rng.choice([1, 1, 2, 3]))]
        return {'lives': lives + [audit()], 'tinycache': tiny(rng, .2, *lives), 'track_order': rng.random() < .15}

    def variants(self, rng, plan, result, n):
        out = []
        for _ in range(n):
            p = copy.deepcopy(plan)
            k = 0
            for li, i, counts in targets(plan, result, ('dump', 'load')):
                if rng.random() < .6:
                    f = benign(rng, counts)
                    if f:
                        p['lives'][li]['ops'][i]['faults'] = f
                        k += 1
            if k:
                out.append(p)
        return out


class C02(Prop):
    id = 'C02'
    classes = ('wrong', 'phantom')
    quick, thorough = (260, 7), (4000, 14)

    def mine(self, v):
        if v['cls'] == 'lost':
            return v.get('why') == 'acked'      # a fault was swallowed
        return v['cls'] in ('wrong', 'phantom') and v.get('why') in ('failed', 'maybe', 'acked', 'acked-dirty', None)

    def base(self, rng):
        style = rng.choice(['bomb', 'bomb', 'h5', 'disk', 'line', 'stream'])
        h = Hist(rng, files=1, streams=1 if style == 'stream' else 0, bombs=style == 'bomb', size=rng.choice([3, 6, 10]),
                 refused=0, missing=0, foreign=0, gc=0, custom=.3, pyfiles=style != 'disk')
        ops = []
        if rng.random() < .5:
            h.add(h.dump_op())
        if style not in ('stream', 'disk') and rng.random() < .4:
            f = h.files[0]
            mode = 'r+' if f in h.m.files else 'a'
            h.ops.append({'op': 'open', 'h': 'h0', 'file': f, 'mode': mode})
            h.m.handles['h0'] = (f, 'r+', True)
            if f not in h.m.files:
                from model import FileState
                h.m.files[f] = FileState()
        if style == 'stream':
            f = h.streams[0]
        else:
            f = h.files[0]
        force = {'via': 'str', 'mode': 'w', 'path': '/'} if style == 'disk' else {}
        op = h.add(h.dump_op(f, **force))
        op['victim'] = True
        tail = {'op': 'load', 'file': op['file'], 'via': op['via'], 'path': op['path']}
        for k in ('h', 'base'):
            if k in op:
                tail[k] = op[k]
        h.add(tail)
        ops = h.ops
        return {'lives': [{'ops': ops, 'end': 'exit'}, audit()], 'style': style, 'bombs': style == 'bomb', 'trace': style == 'line',
                'tinycache': tiny(rng, .15, {'ops': ops})}

    def variants(self, rng, plan, result, n):
        li, ops = 0, plan['lives'][0]['ops']
        vi = [i for i, o in enumerate(ops) if o.get('victim')]
        t = [(l, i, c) for l, i, c in targets(plan, result) if l == 0 and i in vi]
        if not t:
            return []
        li, i, c = t[0]
        out = []
        for _ in range(n):
            s = plan['style']
            f = warn_fault(rng, c) if s != 'disk' and rng.random() < .08 else {'bomb': bomb_fault, 'h5': h5_any_fault, 'disk': dump_disk_fault, 'line': line_fault, 'stream': stream_fault}[s](rng, c)
            if not f:
                continue
            p = with_fault(plan, li, i, f)
            if s != 'line':
                p['trace'] = False
            if rng.random() < .3:
                p['lives'][0]['ops'][i]['hold'] = rng.choice(['list', 'cycle'])
            out.append(p)
        return out


class C03(Prop):
    id = 'C03'
    checks = ('litter',)
    quick, thorough = (300, 5), (5000, 10)

    def mine(self, v):
        if v['cls'] in ('foreign', 'not-refused', 'dump-failed', 'litter'):
            return True
        return v['cls'] in ('lost', 'wrong') and v.get('why') in ('acked', 'open', 'gone')

    def base(self, rng):
        bombs = rng.random() < .4
        h = Hist(rng, files=rng.choice([1, 1, 2]), streams=0, bombs=bombs, size=rng.choice([3, 5, 8]), refused=.25, missing=.08,
                 foreign=.08, gc=.06, hold=True, overwrite=.1, fkw=.2)
        lives = [h.life(rng.randint(4, 9)) for _ in range(rng.choice([1, 1, 2]))]
        for l in lives:
            l['ops'].append({'op': 'gc', 'drop': True})
        return {'lives': lives + [audit()], 'bombs': bombs}

    def variants(self, rng, plan, result, n):
        out = []
        ts = targets(plan, result, ('dump', 'load'))
        for _ in range(n):
            p = copy.deepcopy(plan)
            chosen = [t for t in ts if rng.random() < .4] or (ts and [rng.choice(ts)])
            k = 0
            shift = {}
            for li, i, c in chosen or ():
                op = p['lives'][li]['ops'][i + shift.get(li, 0)]
                kinds = [f for f in (h5_fault, bomb_fault, import_fault) if f(random.Random(0), c)] + ([warn_fault] if rng.random() < .3 else [])
                if not kinds:
                    continue
                f = rng.choice(kinds)
                fault = f(rng, c) if f is not h5_fault else h5_fault(rng, c, sticky=0)
                retry = copy.deepcopy(op)
                retry['tag'] = 'retry'
                op['faults'] = fault
                op['hold'] = rng.choice([None, 'list', 'cycle'])
                if rng.random() < .7:
                    p['lives'][li]['ops'].insert(i + shift.get(li, 0) + 1, retry)
                    shift[li] = shift.get(li, 0) + 1
                k += 1
            if k:
                out.append(p)
        return out


class C04(Prop):
    id = 'C04'
    classes = ('leak', 'gcstate', 'handle')
    checks = ('hyg',)
    quick, thorough = (300, 5), (5000, 10)

    def base(self, rng):
        bombs = rng.random() < .4
        h = Hist(rng, files=2, streams=rng.choice([0, 1]), bombs=bombs, size=5, refused=.2, missing=.1, gc=.02, hold=True)
        l = h.life(rng.randint(3, 8))
        l2 = h.life(rng.randint(2, 4))
        for x in (l, l2):
            if rng.random() < .4:
                x['ops'].insert(rng.randrange(len(x['ops']) + 1), {'op': 'gcstate', 'on': False})
        if rng.random() < .3:
            fs = [f for f in h.files if f in h.m.files]
            if fs:
                f = rng.choice(fs)
                return {'lives': [l, {'ops': [{'op': 'truncate', 'file': f, 'frac': rng.choice([.3, .6, .9, .99])}] +
                                      [{'op': 'load', 'file': f, 'via': v, 'path': p} for v in ('str', 'pyfile') for p in list(h.m.files[f].slots)[:2]], 'end': 'exit'}],
                        'bombs': bombs}
        return {'lives': [l, l2], 'bombs': bombs}

    def variants(self, rng, plan, result, n):
        out = []
        ts = targets(plan, result, ('dump', 'load'))
        for _ in range(n):
            p = copy.deepcopy(plan)
            k = 0
            for li, i, c in [t for t in ts if rng.random() < .4] or (ts and [rng.choice(ts)]):
                op = p['lives'][li]['ops'][i]
                kinds = [f for f in (h5_fault, bomb_fault, import_fault) if f(random.Random(0), c)]
                if not kinds:
                    continue
                op['faults'] = rng.choice(kinds)(rng, c)
                op['hold'] = rng.choice([None, 'list'])
                k += 1
            if k:
                out.append(p)
        return out


class C05(Prop):
    id = 'C05'
    classes = ('modified', 'litter')
    checks = ('mod', 'litter')
    quick, thorough = (250, 4), (4000, 8)

    def base(self, rng):
        h = Hist(rng, files=2, streams=rng.choice([0, 1]), size=rng.choice([4, 8]), refused=.06, missing=.1, foreign=.05)
        l = h.life(rng.randint(2, 5))
        ops = []
        if rng.random() < .4:
            ops.append(legacy_op(rng, 'leg.hkl', gone=rng.choice([0, .2])))
            lp = legacy_at(ops[0])
            hm = rng.choice(['r', 'r+', None])
            if hm:
                ops.append({'op': 'open', 'h': 'hl', 'file': 'leg.hkl', 'mode': hm})
            for _ in range(2):
                ops.append({'op': 'load', 'file': 'leg.hkl', 'path': rng.choice([lp, lp, '/zz']), 'via': 'handle' if hm else 'str', 'h': 'hl'})
            if hm:
                ops.append({'op': 'close', 'h': 'hl'})
        for f in h.files:
            if f in h.m.files and h.m.files[f].slots:
                mode = rng.choice(['r', 'r+', 'r+', None])
                if mode:
                    ops.append({'op': 'open', 'h': 'h' + f, 'file': f, 'mode': mode})
                paths = [p for p, s in h.m.files[f].slots.items()] + ['/zz']
                for _ in range(rng.randint(1, 3)):
                    op = {'op': 'load', 'file': f, 'path': rng.choice(paths)}
                    op.update(via='handle', h='h' + f) if mode else op.update(via=rng.choice(['str', 'path', 'pyfile', 'dict']))
                    ops.append(op)
        for s in h.streams:
            if s in h.m.files:
                for p in h.m.files[s].slots:
                    ops.append({'op': 'load', 'file': s, 'path': p, 'via': STREAMS[s]})
        life2 = {'ops': ops, 'end': rng.choice(['exit', 'kill'])}
        env = rng.choice(['full', 'full', 'noloader', 'noclass', 'noattr'])
        if env != 'full':
            life2['env'] = env
            for o in ops:
                if o['op'] == 'load':
                    o['expect'] = 'any'
        return {'lives': [l, life2, audit()]}

    def variants(self, rng, plan, result, n):
        out = []
        ts = [t for t in targets(plan, result, ('load',))]
        for _ in range(n):
            p = copy.deepcopy(plan)
            k = 0
            for li, i, c in [t for t in ts if rng.random() < .5] or (ts and [rng.choice(ts)]):
                op = p['lives'][li]['ops'][i]
                x = rng.random()
                if x < .5:
                    f = h5_fault(rng, c)
                elif x < .7:
                    f = [io_fault('err-read', READ, pick_nth(rng, c['io_read']), A_ERR, EIO, 1)] if c.get('io_read') else []
                elif x < .85:
                    f = stream_fault(rng, c)
                else:
                    f = import_fault(rng, c)
                if f:
                    op['faults'] = f
                    k += 1
            if k:
                out.append(p)
        return out


class C06(Prop):
    id = 'C06'
    classes = ('wrong', 'lost', 'dump-failed', 'phantom', 'native-crash')
    quick, thorough = (350, 3), (6000, 6)

    def shared(self, rng):
        g = objects.Gen(rng, size=rng.choice([8, 16, 30]), custom=rng.random() < .3, always=True, astropy=rng.random() < .3)
        # many shared and many short lived objects
        pool = []
        for i in range(rng.randint(1, 4)):
            base = rng.choice([['list', [['int', '1'], ['str', 'q']]], ['dict', [[['str', 'k'], ['int', '2']]]], ['arr', 'float64', [3], 5],
                               ['masked', 'int32', [3], 1, 2], ['objarr', [['str', 'x'], ['none'], ['list', [['int', '1'], ['str', 's']]]]],
                               ['strarr', ['a', 'bb', 'ccc', 'd'], [2, 2]], ['set', [['int', '1'], ['str', 's']]], ['plain', ['int', '7']],
                               ['sparse', 'csr', 3, 3, 5], ['always', [['list', [['str', 'in']]], ['str', 'x']]], ['bytes', '616263'], ['str', 'shared text'],
                               ['tuple', [['int', '1'], ['str', 't']]], ['tuple', [['int', '3'], ['int', '4']]], ['matrix', 'float64', 2, 2, 5],
                               ['range', 0, 9], ['list', []], ['dict', []], ['set', []], ['odict', [[['str', 'z'], ['int', '1']]]],
                               ['list', [['list', [['int', '1'], ['str', 'w']]], ['str', 'v']]]])
            if rng.random() < .35:
                lf = g.leaf()
                if lf[0] not in ('int', 'float', 'complex', 'bool', 'none', 'nps'):
                    base = lf
            pool.append(['def', i, base])
        items = list(pool)
        for _ in range(rng.randint(2, 9)):
            x = rng.random()
            if x < .45:
                items.append(['ref', rng.randrange(len(pool))])
            elif x < .6:
                items.append(['dict', [[['tuple', [['int', str(j)], ['str', 'k']]], rng.choice([['ref', rng.randrange(len(pool))], ['list', [['int', str(j)]]]])] for j in range(rng.randint(1, 4))]])
            elif x < .7:
                items.append(['masked', 'float64', [2, 2], rng.getrandbits(8), rng.getrandbits(8)])
            elif x < .8:
                items.append(['rep', rng.randint(2, 5), rng.choice([['list', [['int', '1'], ['str', 'q']]], ['dict', []], ['arr', 'int8', [2], 3], ['set', [['int', '1'], ['str', 'b']]], ['masked', 'int32', [3], 1, 2]])])
            else:
                items.append(['list', [['ref', rng.randrange(len(pool))], ['ref', rng.randrange(len(pool))], g.leaf()]])
        if rng.random() < .4:
            items.append(g.top() if not g.refs else ['list', [objects.Gen(rng, size=8, refs=False).top()]])
        head, rest = items[:len(pool)], items[len(pool):]
        rng.shuffle(rest)
        items = head + rest
        return rng.choice([['list', items], ['tuple', items], ['dict', [[['int', str(i)], x] for i, x in enumerate(items)]]]), g.custom

    def base(self, rng):
        ops = []
        n = rng.randint(1, 4)
        for i in range(n):
            rec, custom = self.shared(rng)
            f = rng.choice(['f0.h5', 'f1.h5'])
            op = {'op': 'dump', 'file': f, 'obj': rec, 'kw': rng.choice(KWS), 'via': 'str', 'mode': 'w', 'path': '/'}
            if custom:
                op['options'] = {'custom': True}
            ops.append(op)
            ops.append({'op': 'load', 'file': f, 'via': 'str', 'path': '/'})
        return {'lives': [{'ops': ops, 'end': 'exit'}, audit()], 'trace': True}

    def variants(self, rng, plan, result, n):
        out = []
        ts = targets(plan, result, ('dump', 'load'))
        for _ in range(n):
            p = copy.deepcopy(plan)
            for li, i, c in ts:
                lines = c.get('line', 0)
                if not lines or rng.random() < .2:
                    continue
                if rng.random() < .3:
                    f = {'t': 'gc', 'every': max(7, lines // rng.choice([20, 60]))}
                else:
                    f = {'t': 'gc', 'at': sorted(rng.sample(range(lines), min(lines, rng.choice([3, 10, 25]))))}
                p['lives'][li]['ops'][i]['faults'] = [f]
            p['trace'] = False
            out.append(p)
        return out


def small_obj(rng, custom=False, bombs=False, size=5):
    return objects.Gen(rng, size=size, custom=custom, always=True, bombs=bombs, astropy=rng.random() < .5).top()


class C07(Prop):
    id = 'C07'
    classes = ('thread-dump-failed', 'thread-lost', 'thread-wrong', 'deadlock', 'gcstate', 'leak', 'lost', 'wrong', 'native-crash', 'dump-failed', 'phantom')
    quick, thorough = (220, 5), (4000, 10)
    base_counts = False

    def sched(self, rng):
        x = rng.random()
        s = {'mode': 'pct', 'seed': rng.getrandbits(30), 'depth': rng.choice([1, 2, 3, 5]), 'horizon': rng.choice([300, 1500, 5000])} if x < .35 else \
            {'mode': 'random', 'seed': rng.getrandbits(30), 'p': rng.choice([.003, .02, .1, .4])}
        if rng.random() < .15:
            s['opcodes'] = True
        return s

    def base(self, rng):
        style = rng.choice(['own', 'own', 'own', 'shared', 'handle', 'legacy'])
        nt = rng.choice([2, 2, 3])
        ops = []
        tracks = []
        bombs = False
        files = ['t0.h5', 't1.h5', 't2.h5'] if rng.random() < .7 else ['t.h5', 't.hkl', 't.x.h5']
        if style == 'legacy':
            for t in range(nt):
                ops.append(legacy_op(rng, files[t]))
                tracks.append([{'op': 'load', 'file': files[t], 'via': 'str', 'path': legacy_at(ops[-1])} for _ in range(rng.choice([1, 2]))])
            if rng.random() < .4:
                tracks[0] = [{'op': 'dump', 'file': 'n.h5', 'obj': small_obj(rng), 'via': 'str', 'mode': 'w', 'kw': {}}]
        elif style == 'own':
            pre = rng.random() < .4
            for t in range(nt):
                tr = []
                via = rng.choice(['str', 'str', 'str', 'stream'])
                f = files[t] if via == 'str' else 's%d' % t
                via = STREAMS[f] if f in STREAMS else via
                for k in range(rng.choice([1, 1, 2])):
                    custom = rng.random() < .3
                    o = {'op': 'dump', 'file': f, 'obj': small_obj(rng, custom), 'via': via, 'mode': 'w', 'kw': rng.choice(KWS)}
                    if custom:
                        o['options'] = {'custom': True}
                    if rng.random() < .12:
                        bombs = True
                        o['obj'] = ['list', [o['obj'], ['bomb', 'b%d%d' % (t, k)], ['str', 'tail']]]
                        o['bombtag'] = ['b%d%d' % (t, k), rng.choice(['RuntimeError', 'KeyboardInterrupt', 'ValueError'])]
                    tr.append(o)
                    if rng.random() < .8:
                        tr.append({'op': 'load', 'file': f, 'via': via, 'path': '/'})
                tracks.append(tr)
            if rng.random() < .3:
                ops.append({'op': 'open', 'h': 'hi', 'file': 'walk.h5', 'mode': 'w'})
                for p in ('/p', '/q'):
                    ops.append({'op': 'dump', 'file': 'walk.h5', 'obj': small_obj(rng, size=3), 'via': 'handle', 'h': 'hi', 'mode': 'w', 'kw': {}, 'path': p})
                tracks[-1] = [{'op': 'load', 'file': 'walk.h5', 'via': 'handle', 'h': 'hi', 'path': p, 'inside': True} for p in rng.choice([['/p'], ['/p', '/q']])]
        elif style == 'shared':
            o1, o2, o3 = (small_obj(rng) for _ in range(3))
            if rng.random() < .7:
                ops.append({'op': 'dump', 'file': 'sh.h5', 'obj': o1, 'via': 'str', 'mode': 'w', 'kw': {}, 'path': '/'})
            for t in range(nt):
                if rng.random() < .5:
                    tracks.append([{'op': 'load', 'file': 'sh.h5', 'via': 'str', 'path': '/', 'shared': True} for _ in range(rng.choice([1, 2]))])
                else:
                    tracks.append([{'op': 'dump', 'file': 'sh.h5', 'obj': rng.choice([o2, o3]), 'via': 'str', 'mode': 'w', 'kw': rng.choice(KWS), 'path': '/', 'shared': True}])
        else:
            ops.append({'op': 'open', 'h': 'h', 'file': 'hh.h5', 'mode': 'w'})
            for p in ('/p', '/q'):
                ops.append({'op': 'dump', 'file': 'hh.h5', 'obj': small_obj(rng), 'via': 'handle', 'h': 'h', 'mode': 'w', 'kw': {}, 'path': p})
            for t in range(nt):
                if rng.random() < .5:
                    tracks.append([{'op': 'load', 'file': 'hh.h5', 'via': 'handle', 'h': 'h', 'path': rng.choice(['/p', '/q']), 'shared': True}])
                else:
                    tracks.append([{'op': 'dump', 'file': 'hh.h5', 'obj': small_obj(rng), 'via': 'handle', 'h': 'h', 'mode': 'w', 'kw': {}, 'path': '/t%d' % t, 'shared': True}])
        ops.append({'op': 'par', 'tracks': tracks, 'sched': self.sched(rng)})
        if style == 'handle':
            ops.append({'op': 'load', 'file': 'hh.h5', 'via': 'handle', 'h': 'h', 'path': '/p'})
            ops.append({'op': 'dump', 'file': 'hh.h5', 'obj': ['str', 'after'], 'via': 'handle', 'h': 'h', 'mode': 'w', 'kw': {}, 'path': '/after'})
        return {'lives': [{'ops': ops, 'end': 'exit'}, audit()], 'bombs': bombs}

    def variants(self, rng, plan, result, n):
        out = []
        for _ in range(n):
            p = copy.deepcopy(plan)
            for op in p['lives'][0]['ops']:
                if op['op'] == 'par':
                    op['sched'] = self.sched(rng)
            out.append(p)
        return out


class C08(Prop):
    id = 'C08'
    quick, thorough = (260, 8), (5000, 16)

    def mine(self, v):
        return v['cls'] in ('wrong', 'lost', 'phantom', 'native-crash')

    def base(self, rng):
        kind = rng.choice(['fresh', 'fresh', 'fresh', 'kill', 'load'])
        h = Hist(rng, files=2, streams=0, size=rng.choice([3, 8, 20]), refused=0, missing=0, foreign=0, gc=0, handles=False,
                 pyfiles=False, custom=.25)
        if kind == 'kill':
            f = h.files[0]
            ops = [{'op': 'open', 'h': 'h0', 'file': f, 'mode': 'w'}]
            h.m.handles['h0'] = (f, 'r+', True)
            from model import FileState
            h.m.files[f] = FileState()
            for _ in range(rng.randint(1, 3)):
                op = h.dump_op(f)
                h.add(op)
            ops += h.ops
            return {'lives': [{'ops': ops, 'end': 'kill'}, audit(), {'ops': [{'op': 'dump', 'file': f, 'obj': ['str', 'again'], 'kw': {}, 'via': 'str', 'mode': 'a', 'path': '/again'}], 'end': 'exit'}, audit()], 'kind': kind}
        other = h.add(h.dump_op(h.files[1], mode='w', via='str'))
        if rng.random() < .4:
            h.add(h.dump_op(h.files[0], mode='w', via='str'))
        op = h.add(h.dump_op(h.files[0], mode='w', via=rng.choice(['str', 'path'])))
        if kind == 'load':
            op = h.add(h.load_op(h.files[0], via='str'))
        op['victim'] = True
        nxt = {'op': 'dump', 'file': h.files[0], 'obj': ['list', [['str', 'second try'], ['int', '3']]], 'kw': {}, 'via': 'str', 'mode': 'w', 'path': '/'}
        return {'lives': [{'ops': h.ops, 'end': 'exit'}, audit(), {'ops': [nxt], 'end': 'exit'}, audit()], 'kind': kind, 'tinycache': rng.random() < .4}

    def variants(self, rng, plan, result, n):
        out = []
        if plan['kind'] == 'kill':
            return out
        for li, i, c in targets(plan, result, ('dump', 'load')):
            op = plan['lives'][li]['ops'][i]
            if not op.get('victim') or not c.get('io'):
                continue
            for _ in range(n):
                x = rng.random()
                torn = rng.choice([0, 0, 1, 13, 511, 10**9])
                if c.get('io_write') and x < .7:
                    f = io_fault('crash-write', WRITE, pick_nth(rng, c['io_write']), A_CRASH, torn)
                else:
                    f = io_fault('crash-any', OPEN | READ | WRITE | TRUNC | CLOSE | SYNC | LOCK, pick_nth(rng, c['io']), A_CRASH, torn)
                out.append(with_fault(plan, li, i, [f]))
        return out


class C09(Prop):
    id = 'C09'
    quick, thorough = (360, 6), (4000, 12)

    def mine(self, v):
        return v['cls'] in ('wrong', 'phantom', 'native-crash') or (v['cls'] == 'lost' and v.get('why') == 'acked')

    def protected(self, rng, depth=0):
        """objects all of whose payload goes into datasets that accept a checksum"""
        x = rng.random()
        if x < .35 or depth > 2:
            return rng.choice([
                lambda: ['arr', rng.choice(objects.ARR_DTYPES), [rng.choice([2, 7, 300, 5000])], rng.getrandbits(20)],
                lambda: ['arr', rng.choice(['float64', 'int32']), [rng.randint(1, 9), rng.randint(1, 9)], rng.getrandbits(20)],
                lambda: ['str', rng.choice(['text', 'ünïcode' * 20, 'x' * 3000])],
                lambda: ['bytes', rng.choice(['616263', 'ff00ff' * 30])],
                lambda: ['range', 0, rng.randint(3, 200)],
                lambda: ['frange', rng.randint(3, 50), .25],
                lambda: ['plain', ['str', 'pickled payload']],
                lambda: ['frac', rng.randint(1, 99), 7],
                lambda: ['masked', rng.choice(['int32', 'float64']), [rng.choice([2, 9, 200])], rng.getrandbits(20), rng.getrandbits(20)],
                lambda: ['sparse', rng.choice(['csr', 'csc', 'bsr']), rng.randint(1, 5), rng.randint(1, 5), rng.getrandbits(20)],
                lambda: ['matrix', 'float64', rng.randint(1, 3), rng.randint(1, 4), rng.getrandbits(20)],
                lambda: ['strarr', [rng.choice(['a', 'bb', 'ccc', 'ü']) for _ in range(4)], rng.choice([[4], [2, 2]])],
                lambda: ['objarr', [['str', 'o'], ['list', [['int', '3'], ['int', '4']]], ['arr', 'float64', [4], 3], ['str', 'p']], [2, 2]],
                lambda: ['set', [['str', 'm%d' % i] for i in range(rng.randint(1, 3))]],
                lambda: ['set', [['int', str(i * 7)] for i in range(rng.randint(2, 9))]],
                lambda: ['dtype', rng.choice(['float64', '>i4', 'S5'])],
                lambda: ['sky', [float(rng.randint(0, 359)), 10.5], [float(rng.randint(-80, 80)), -5.25]],
                lambda: ['table', rng.randint(1, 6), rng.getrandbits(20)],
                lambda: ['struct', 'ab', [3], rng.getrandbits(20)],
                lambda: ['sub', 'SubStr', ['str', 'subclass']],
                lambda: ['odict', [[['str', 'z'], ['str', 'v']], [['str', 'y'], ['arr', 'int32', [5], 3]]]],
            ])()
        items = [self.protected(rng, depth + 1) for _ in range(rng.randint(1, 3))] + [['str', 'sep']]
        if rng.random() < .15:
            return ['dict', [[rng.choice([['str', 'a/b%d' % i], ['tuple', [['str', 't'], ['int', str(i)]]], ['int', str(i)], ['bytes', 'ff%02x' % i]]), x]
                             for i, x in enumerate(items)]]
        if rng.random() < .1:
            return ['rich', 'n1', ['list', items]]
        return rng.choice([['list', items], ['tuple', items], ['dict', [[['str', 'k%d' % i], x] for i, x in enumerate(items)]]])

    def base(self, rng):
        kind = rng.choice(['read', 'read', 'api', 'api', 'rot', 'rot', 'stream'])
        if kind == 'rot':
            ops = [{'op': 'dump', 'file': 'f0.h5', 'obj': self.protected(rng), 'via': 'str', 'mode': 'w', 'path': rng.choice(['/', '/a']), 'options': rng.choice([{}, {'custom': True}]),
                    'kw': rng.choice([{'fletcher32': True}, {'fletcher32': True, 'compression': 'gzip'}, {'fletcher32': True, 'compression': 'lzf', 'shuffle': True}])}]
            return {'lives': [{'ops': ops, 'end': 'exit'}, audit()], 'kind': kind}
        h = Hist(rng, files=1, streams=1 if kind == 'stream' else 0, size=rng.choice([4, 8, 14]), refused=0, missing=0, foreign=0, gc=0, handles=False,
                 pyfiles=True)
        for _ in range(rng.choice([1, 2])):
            op = h.dump_op(h.streams[0] if kind == 'stream' else h.files[0])
            if kind == 'api' and rng.random() < .6:
                op['obj'], custom = PROPS['C06'].shared(rng)
                if custom:
                    op['options'] = {'custom': True}
            h.add(op)
        l1 = {'ops': h.ops, 'end': 'exit'}
        h.ops = []
        for _ in range(rng.randint(2, 4)):
            h.add(h.load_op())
        if rng.random() < .3 and kind != 'stream':
            h.ops.append(legacy_op(rng, 'leg.hkl'))
            h.ops.append({'op': 'load', 'file': 'leg.hkl', 'via': 'str', 'path': legacy_at(h.ops[-1])})
        return {'lives': [l1, {'ops': h.ops, 'end': 'exit'}, audit()], 'kind': kind}

    def variants(self, rng, plan, result, n):
        out = []
        if plan['kind'] == 'rot':
            if not result['events'] or not result['events'][0] or result['events'][0][0].get('res') != 'ok':
                return []
            for _ in range(n * 2):
                p = copy.deepcopy(plan)
                f = p['lives'][0]['ops'][0]['file']
                p['lives'].insert(1, {'ops': [{'op': 'rot', 'file': f, 'pick': rng.random(), 'frac': rng.random(), 'bit': rng.randrange(8)}], 'end': 'exit'})
                out.append(p)
            return out
        ts = targets(plan, result, ('load',))
        for _ in range(n):
            p = copy.deepcopy(plan)
            k = 0
            for li, i, c in [t for t in ts if rng.random() < .5] or (ts and [rng.choice(ts)]):
                op = p['lives'][li]['ops'][i]
                if c.get('stream'):
                    f = stream_fault(rng, c, sticky=rng.randint(0, 1))
                elif c.get('io_read'):
                    x = rng.random()
                    if plan['kind'] == 'api' or rng.random() < .2:
                        f = h5_fault(rng, c, excs=('OSError', 'RuntimeError', 'MemoryError'))
                        if f[0].get('only') == ['Group.__getitem__'] and rng.random() < .5:
                            f[0]['exc'] = 'KeyError'    # what h5py makes of metadata it can not read
                    else:
                        f = [io_fault('err-read', READ, pick_nth(rng, c['io_read']), A_ERR, EIO, rng.randint(0, 1))] if x < .8 else \
                        [io_fault('err-open', OPEN, 0, A_ERR, rng.choice([EMFILE, EACCES, EIO]), 1)]
                else:
                    f = []
                if f:
                    op['faults'] = f
                    retry = copy.deepcopy(plan['lives'][li]['ops'][i])
                    p['lives'][li]['ops'].append(retry)
                    k += 1
            if k:
                out.append(p)
        return out


class C10(Prop):
    id = 'C10'
    classes = ('wrong', 'lost', 'no-warning', 'native-crash', 'phantom')
    quick, thorough = (700, 1), (12000, 2)

    def base(self, rng):
        ndef = [0]

        def custom_obj(depth=0):
            if ndef[0] and rng.random() < .12:
                return ['ref', rng.randrange(ndef[0])]
            r = custom_new(depth)
            if rng.random() < .2 and r[0] in ('rich', 'always', 'flat', 'list', 'dict', 'plain') and ndef[0] is not None:
                r = ['def', ndef[0], r]
                ndef[0] += 1
            return r

        def custom_new(depth):
            x = rng.random()
            if depth < 3 and x < .25:
                return ['rich', rng.choice(['n1', 'n/2', 'ü']), custom_obj(depth + 1)]
            if depth < 3 and x < .4:
                return ['always', [custom_obj(depth + 1) for _ in range(rng.randint(0, 3))]]
            if x < .55:
                return ['flat', rng.choice([[3], [2, 2], [40]]), rng.getrandbits(16), rng.choice(['t', 'ü'])]
            if depth < 3 and x < .7:
                return ['list', [custom_obj(depth + 1) for _ in range(rng.randint(1, 3))] + [['str', 'x']]]
            if depth < 3 and x < .8:
                return ['dict', [[['str', 'k%d' % i], custom_obj(depth + 1)] for i in range(rng.randint(1, 3))]]
            if x < .9:
                return ['plain', ['int', '3']]
            return objects.Gen(rng, size=3, refs=False, pickled=False, astropy=False).top()
        files = rng.sample(FILES, rng.choice([1, 2]))
        ops = []
        for f in files:
            ndef[0] = 0
            ops.append({'op': 'dump', 'file': f, 'obj': custom_obj(), 'via': 'str', 'mode': 'w', 'path': '/', 'kw': rng.choice(KWS), 'options': {'custom': True}})
        if rng.random() < .4:
            ops.append({'op': 'dump', 'file': files[0], 'obj': small_obj(rng), 'via': 'str', 'mode': 'a', 'path': '/ok', 'kw': {}})
            ops[-1]['obj'] = ['list', [['int', '1'], ['str', 'fine']]]
        if rng.random() < .4:
            ops.append(legacy_op(rng, 'leg.h5', version='v4', gone=.4))
            ops[-1]['path'] = legacy_at(ops[-1])
        env = rng.choice(['noloader', 'noclass', 'noattr'])
        loads = []
        for o in rng.sample(ops, len(ops)):
            v = rng.choice(['str', 'str', 'pyfile', 'handle', 'handle+'])
            l = {'op': 'load', 'file': o['file'], 'path': o['path'], 'env': env, 'via': v}
            if v.startswith('handle'):
                h = 'h%d' % len(loads)
                loads.append({'op': 'open', 'h': h, 'file': o['file'], 'mode': 'r+' if v[-1] == '+' else 'r'})
                l.update(via='handle', h=h)
                loads.append(l)
                loads.append({'op': 'close', 'h': h})
            else:
                loads.append(l)
        return {'lives': [{'ops': ops, 'end': 'exit'}, {'ops': loads, 'end': 'exit', 'env': env}, audit()], 'env': env}

    def variants(self, rng, plan, result, n):
        # recovering must not depend on what the process did before
        out = []
        for _ in range(n):
            p = copy.deepcopy(plan)
            warm = [{'op': 'dump', 'file': 'warm%d.h5' % k, 'obj': objects.Gen(rng, size=4, refs=False, pickled=False, astropy=False).top(), 'via': 'str', 'mode': 'w', 'path': '/', 'kw': {}}
                    for k in range(rng.randint(1, 2))]
            ops = p['lives'][1]['ops']
            if rng.random() < .5:
                ops += copy.deepcopy([o for o in ops])
            p['lives'][1]['ops'] = warm + ops
            out.append(p)
        return out


class C11(Prop):
    id = 'C11'
    classes = ('wrong', 'lost', 'modified', 'no-warning', 'phantom', 'native-crash', 'leak', 'gcstate', 'handle', 'thread-lost', 'thread-wrong', 'deadlock')
    checks = ('mod', 'hyg')
    quick, thorough = (260, 5), (4000, 10)

    def base(self, rng):
        names = rng.sample(['l0.hkl', 'l1.h5', 'l0.h5', 'l0.x.h5'], 2)
        if rng.random() < .3:
            names[1] = rng.choice(sorted(STREAMS))
        ops = []
        for f in names:
            ops.append(legacy_op(rng, f, gone=rng.choice([0, 0, .15])))
        vers = [legacy_at(o) for o in ops]
        nh = 0
        for _ in range(rng.randint(2, 6)):
            x = rng.random()
            j = rng.randrange(2)
            f, path = names[j], vers[j]
            if x < .2:
                ops.append({'op': 'dump', 'file': 'n.h5', 'obj': small_obj(rng), 'via': 'str', 'mode': 'w', 'path': '/', 'kw': {}})
                ops.append({'op': 'load', 'file': 'n.h5', 'via': 'str', 'path': '/'})
                continue
            if x < .35:
                # new objects are added to the old file
                add = '/add%d' % len(ops) + rng.choice(['', '', '/sub'])
                how = {'op': 'dump', 'file': f, 'obj': small_obj(rng), 'via': STREAMS.get(f) or rng.choice(['str', 'path', 'pyfile']), 'mode': rng.choice(['r+', 'a']), 'path': add, 'kw': {}}
                if how['via'] == 'pyfile':
                    how['mode'] = 'r+'
                ops.append(how)
                ops.append({'op': 'load', 'file': f, 'via': STREAMS.get(f, 'str'), 'path': add})
            via = STREAMS.get(f) or rng.choice(['str', 'str', 'path', 'handle', 'handle+', 'pyfile', 'tuple', 'dict', 'group', 'group+'])
            op = {'op': 'load', 'file': f, 'path': path, 'via': via}
            if via[:5] in ('handl', 'group'):
                h = 'h%d' % nh
                nh += 1
                ops.append({'op': 'open', 'h': h, 'file': f, 'mode': 'r+' if via[-1] == '+' else 'r'})
                op.update(via=via.rstrip('+'), h=h)
                if via[:5] == 'group':
                    op.update({'base': path, 'path': '/'} if rng.random() < .5 else {'base': '/'})
                ops += [op] * rng.choice([1, 2])
                ops.append({'op': 'close', 'h': h})
            else:
                ops.append(op)
            if x > .9:
                ops.append({'op': 'gc'})
        style = rng.choice(['hist', 'hist', 'par'])
        if style == 'par':
            ops = ops[:2] + [{'op': 'par', 'tracks': [[{'op': 'load', 'file': f, 'via': STREAMS.get(f, 'str'), 'path': v} for _ in range(rng.choice([1, 2]))] for f, v in zip(names, vers)],
                              'sched': C07().sched(rng)}] + ops[2:5]
        return {'lives': [{'ops': ops, 'end': 'exit'}, audit()], 'style': style}

    def variants(self, rng, plan, result, n):
        out = []
        if plan['style'] == 'par':
            return C07().variants(rng, plan, result, n)
        ts = targets(plan, result, ('load',))
        for _ in range(n):
            p = copy.deepcopy(plan)
            k = 0
            for li, i, c in [t for t in ts if t[0] == 0 and rng.random() < .4]:
                op = p['lives'][li]['ops'][i] = copy.deepcopy(p['lives'][li]['ops'][i])
                x = rng.random()
                if x < .4:
                    f = [io_fault('err-read', READ, pick_nth(rng, c['io_read']), A_ERR, EIO, rng.randint(0, 1))] if c.get('io_read') else []
                elif x < .6:
                    f = benign(rng, c)
                elif x < .9:
                    f = h5_fault(rng, c, sticky=0)
                else:
                    f = import_fault(rng, c)
                    if f and f[0]['exc'] == 'ImportError':
                        f[0]['exc'] = 'MemoryError'     # hickle 3 takes that for a package not being installed, once and for all
                if f:
                    op['faults'] = f
                    k += 1
            if k:
                out.append(p)
        return out


class C12(Prop):
    id = 'C12'
    classes = ('stored-differently', 'dump-failed', 'wrong', 'lost', 'not-refused', 'phantom')
    quick, thorough = (350, 3), (6000, 6)

    def base(self, rng):
        bombs = rng.random() < .3
        h = Hist(rng, files=2, streams=rng.choice([0, 1]), bombs=bombs, size=rng.choice([3, 6]), refused=.15, missing=.06, foreign=0, gc=.05, hold=True, custom=.4)
        hist = h.life(rng.randint(2, 7))
        if rng.random() < .3:
            hist['ops'].insert(0, legacy_op(rng, 'leg.hkl', gone=rng.choice([0, .15])))
            hist['ops'].insert(1, {'op': 'load', 'file': 'leg.hkl', 'via': 'str', 'path': legacy_at(hist['ops'][0])})
        if rng.random() < .3:
            # objects of other options are written to and read from one file held open
            o1 = objects.Gen(rng, size=4, custom=True, always=True, refs=False).top()
            cu = [{'op': 'open', 'h': 'hc', 'file': 'cu.h5', 'mode': 'a'},
                  {'op': 'dump', 'file': 'cu.h5', 'obj': ['list', [o1, ['rich', 'n1', ['str', 'x']], ['flat', [2], 3, 't']]], 'via': 'handle', 'h': 'hc', 'mode': 'a',
                   'path': '/c', 'kw': {}, 'options': rng.choice([{'custom': True}, {'custom': True}, {}])}]
            for _ in range(rng.randint(1, 2)):
                cu.append({'op': 'load', 'file': 'cu.h5', 'via': 'handle', 'h': 'hc', 'path': '/c'})
            if rng.random() < .5:
                cu.append({'op': 'close', 'h': 'hc'})
            at = rng.randrange(len(hist['ops']) + 1)
            hist['ops'][at:at] = cu
        custom = rng.random() < .4
        rec = objects.Gen(rng, size=rng.choice([4, 8]), custom=True, always=True, refs=custom).top()
        probe = {'op': 'dump', 'obj': rec, 'via': 'str', 'mode': 'w', 'path': rng.choice(['/', '/', '/a']), 'kw': rng.choice(KWS), 'tag': 'probe'}
        if custom:
            probe['options'] = {'custom': True}
        elif rng.random() < .3:
            probe['options'] = {'custom': False}
        pre = []
        if rng.random() < .3:
            # the place the probe goes to has seen a dump that failed
            bombs = True
            probe['mode'] = 'a'
            items = [objects.Gen(rng, size=3, refs=False).top(), ['bomb', 'bx']]
            pre = [{'op': 'dump', 'file': 'after.h5', 'obj': ['list', items], 'via': 'str', 'mode': rng.choice(['w', 'a']), 'path': probe['path'], 'kw': rng.choice(KWS),
                    'options': rng.choice([{}, {'custom': True}, {'custom': False}]), 'tag': 'pre',
                    'faults': [dict(t='bomb', nth=0, exc=rng.choice(['RuntimeError', 'KeyboardInterrupt', 'ValueError']))]}]
        a = dict(probe, file='after.h5')
        b = dict(probe, file='fresh.h5')
        lives = [{'ops': hist['ops'] + pre + [{'op': 'gc', 'drop': True}, a, {'op': 'load', 'file': 'after.h5', 'via': 'str', 'path': probe['path']}], 'end': 'exit'},
                 {'ops': [b], 'end': 'exit'},
                 {'ops': [{'op': 'cmpfiles', 'a': 'fresh.h5', 'b': 'after.h5'}, {'op': 'audit'}], 'end': 'exit'}]
        return {'lives': lives, 'bombs': bombs}

    def variants(self, rng, plan, result, n):
        out = []
        ts = [t for t in targets(plan, result, ('dump', 'load')) if t[0] == 0 and plan['lives'][0]['ops'][t[1]].get('tag') != 'probe'
              and plan['lives'][0]['ops'][t[1]]['file'] != 'after.h5']
        for _ in range(n):
            p = copy.deepcopy(plan)
            k = 0
            for li, i, c in [t for t in ts if rng.random() < .5] or (ts and [rng.choice(ts)]):
                op = p['lives'][li]['ops'][i]
                kinds = [f for f in (h5_fault, bomb_fault, import_fault) if f(random.Random(0), c)]
                if not kinds:
                    continue
                f = rng.choice(kinds)
                op['faults'] = f(rng, c) if f is not h5_fault else h5_fault(rng, c, sticky=0)
                op['hold'] = rng.choice([None, 'list', 'cycle'])
                k += 1
            if k:
                out.append(p)
        return out


PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12)}
