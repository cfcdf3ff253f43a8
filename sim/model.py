"""The reference model: what the simulated user may observe, kept apart from hickle.

One model value describes the whole simulated disk: per file and per path inside the
file, which objects a load may return there and whether it has to return one.  It is a
plain function of the plan and of the outcomes reported, run identically in the child
that executes a process life and in the parent that survives it.
"""


def norm(path, base=''):
    parts = [p for p in (base + '/' + path).split('/') if p and p != '.']
    return '/' + '/'.join(parts)


def parents(path):
    out, cur = ['/'], ''
    for p in [p for p in path.split('/') if p]:
        cur += '/' + p
        out.append(cur)
    return out


class Slot:
    __slots__ = ('vals', 'must', 'why', 'dirty')

    def __init__(self, vals, must, why, dirty=False):
        self.vals, self.must, self.why, self.dirty = vals, must, why, dirty


class FileState:
    def __init__(self):
        self.exists = True
        self.sure = True        # False: the file may or may not exist
        self.void = False       # contents out of the model (device failure in the middle of an update)
        self.slots = {}
        self.groups = {'/'}
        self.foreign = {}
        self.uattrs = {}        # attributes the user gave groups: 'path name' -> value
        self.maybe = set()      # names which may or may not be there

    def occupied(self, path):
        """True / False / None (unknown): is there anything in the group a dump to path would use"""
        s = self.slots.get(path)
        if s is not None and s.must:
            return True
        pre = path.rstrip('/') + '/'
        if any(g != path and g.startswith(pre) for g in self.groups):
            return True
        if any(('/' + n).startswith(pre) for n in self.foreign):
            return True
        if s is not None and (s.dirty or s.why == 'maybe'):
            return None
        if any(g.startswith(pre) for g in self.maybe):
            return None
        return False


def mode_of(op):
    """mode of a dump; for file objects w+ is w and a+ is a, just like for any file of Python"""
    m = op['mode'].replace('b', '')
    return m if m[0] == 'r' else m[0]


class Model:
    def __init__(self):
        self.files = {}
        self.handles = {}       # name -> (file, mode, open?)
        self.n = 0

    # ------------------------------------------------------------------ predictions

    def handle_on(self, f):
        return [h for h, (hf, mode, is_open) in self.handles.items() if hf == f and is_open]

    def predict_dump(self, op):
        """('ok' | 'refuse' | 'any', stage);  stage: how far a refusal gets"""
        fs = self.files.get(op['file'])
        via = op['via']
        path = norm(op.get('path', '/'), op.get('base', ''))
        if fs is not None and fs.void:
            return 'any', 'void'
        if op.get('expect') == 'any':
            return 'any', 'any'
        bad_opt = any(k not in ('custom', 'hickle-4.x') for k, v in op.get('options', {}).items() if v)
        if via in ('handle', 'group'):
            hf, mode, is_open = self.handles.get(op['h'], (None, None, False))
            if not is_open:
                return 'refuse', 'pre'
            if mode == 'r':
                return 'refuse', 'pre'
            fresh = False
        else:
            m = mode_of(op)
            exists = fs is not None and fs.exists
            sure = fs is None or fs.sure
            if self.handle_on(op['file']):
                return ('refuse', 'pre') if m in ('w', 'x', 'w-', 'w+') else ('any', 'any')
            if m in ('x', 'w-') and exists:
                return ('refuse' if sure else 'any'), 'pre'
            if m != 'w' and not exists and via in ('stream', 'lean', 'bytesio'):
                return 'any', 'any'
            if m == 'r' or (m == 'r+' and not exists):
                return 'refuse', 'pre'
            if not sure and m != 'w':
                return 'any', 'any'
            fresh = m in ('w', 'w+') or not exists
        if not fresh:
            occ = fs.occupied(path)
            if occ:
                return 'refuse', 'occupied'
            if occ is None:
                return 'any', 'any'
        if bad_opt:
            return 'refuse', 'options'
        return 'ok', ''

    # ------------------------------------------------------------------ transitions

    def is_fresh(self, op):
        if op['via'] in ('handle', 'group'):
            return False
        fs = self.files.get(op['file'])
        m = mode_of(op)
        return m in ('w', 'w+') or fs is None or not fs.exists

    def dump_done(self, op, res, level, fired, pred):
        """res: ok | raise | died;  level of the injected fault: none | py | disk"""
        self.n += 1
        f = op['file']
        path = norm(op.get('path', '/'), op.get('base', ''))
        fs = self.files.get(f)
        if fs is not None and fs.void:
            if res == 'ok' and self.is_fresh(op):
                fs = None
            else:
                return
        val = {'rec': op['obj'], 'n': self.n}
        fresh = self.is_fresh(op) if fs is not None or op['via'] not in ('handle', 'group') else False
        if res == 'ok':
            if fs is None or fresh:
                fs = self.files[f] = FileState()
            fs.exists = fs.sure = True
            fs.slots[path] = Slot([val], True, 'acked' if level != 'dirty' else 'acked-dirty')
            fs.groups.update(parents(path))
            return
        verdict, stage = pred
        if stage == 'pre' or (stage == 'occupied' and level == 'none'):
            return
        if level == 'none' and stage == 'options':
            if fresh:
                fs = self.files[f] = FileState()
            fs.slots.setdefault(path, Slot([], False, 'failed'))
            fs.maybe.update(g for g in parents(path) if g not in fs.groups)
            return
        # the dump failed half way
        if fresh:
            old = fs
            fs = self.files[f] = FileState()
            fs.sure = False
            if old is not None:
                for p, s in old.slots.items():
                    fs.slots[p] = Slot(list(s.vals), False, 'maybe')
                # foreign data of a file about to be replaced is not promised any more
                fs.maybe = old.maybe | (old.groups - {'/'}) | {'/' + n for n in old.foreign}
            vals = list(fs.slots[path].vals) if path in fs.slots else []
            fs.slots[path] = Slot(vals + [val], False, 'maybe', True)
            fs.maybe.update(g for g in parents(path) if g not in fs.groups)
            return
        if level == 'disk' or res == 'died':
            fs.void = True
            return
        s = fs.slots.get(path)
        vals = list(s.vals) if s is not None else []
        fs.slots[path] = Slot(vals + [val], False, 'failed', level == 'dirty' or verdict == 'any')
        fs.maybe.update(g for g in parents(path) if g not in fs.groups)

    def expect_load(self, op):
        """(kind, slot): 'value' must return, 'maybe', 'none' must raise, 'any' not judged"""
        f = op['file']
        fs = self.files.get(f)
        if op.get('expect') == 'any':
            return 'any', None
        if op['via'] in ('handle', 'group'):
            hf, mode, is_open = self.handles.get(op['h'], (None, None, False))
            if not is_open:
                return 'none', None
        if fs is None or not fs.exists:
            return 'none', None
        if fs.void:
            return 'any', None
        path = norm(op.get('path', '/'), op.get('base', ''))
        s = fs.slots.get(path)
        if s is None or not s.vals:
            return 'none', None
        return ('value' if s.must and fs.sure else 'maybe'), s
