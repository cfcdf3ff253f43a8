"""The seams the simulator owns: disk system calls, HDF5 API calls, loader imports,
user callbacks, file-like streams, garbage collection.  (Thread scheduling: sched.py)

Nothing here draws random numbers or reads a clock.
"""
import ctypes
import errno
import functools
import gc
import importlib.machinery
import io
import os

import h5py

import sched

# ------------------------------------------------------------------ disk (native/simfs.c)

OPEN, READ, WRITE, TRUNC, CLOSE, SYNC, LOCK = 1, 2, 4, 8, 16, 32, 64
KINDS = {OPEN: 'open', READ: 'read', WRITE: 'write', TRUNC: 'truncate', CLOSE: 'close', SYNC: 'sync', LOCK: 'lock'}
A_ERR, A_SHORT, A_CRASH, A_FLIP = 1, 2, 3, 4
CRASH_STATUS = 77


class _Rec(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int), ('fd', ctypes.c_int), ('off', ctypes.c_longlong), ('len', ctypes.c_longlong),
                ('ret', ctypes.c_longlong), ('err', ctypes.c_int), ('fault', ctypes.c_int)]


class Disk:
    def __init__(self, lib_path, root):
        L = self.lib = ctypes.CDLL(lib_path)
        L.simfs_init.argtypes = [ctypes.c_char_p]
        L.simfs_add.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        L.simfs_log.restype = ctypes.POINTER(_Rec)
        for n in ('simfs_fired', 'simfs_nlog', 'simfs_nops'):
            getattr(L, n).restype = ctypes.c_long
        L.simfs_init(root.encode())

    def arm(self, faults=(), log=False):
        self.lib.simfs_reset()
        for kinds, nth, action, arg, sticky in faults:
            self.lib.simfs_add(kinds, nth, action, arg, sticky)
        self.nplan = len(faults)
        self.lib.simfs_start(1 if log else 0)

    def disarm(self):
        self.lib.simfs_stop()
        return [self.lib.simfs_fired(i) for i in range(getattr(self, 'nplan', 0))]

    def ops(self):
        return self.lib.simfs_nops()

    def log(self):
        n = self.lib.simfs_nlog()
        p = self.lib.simfs_log()
        return [(KINDS[p[i].kind], p[i].off, p[i].len, p[i].ret, p[i].err, p[i].fault) for i in range(n)]

    def open_fds(self):
        return self.lib.simfs_open_fds()


# ------------------------------------------------------------------ HDF5 API calls

class InjectedError(Exception):
    pass


class H5Api:
    """counts the h5py calls made while armed and makes the chosen one(s) raise"""
    SITES = [
        (h5py.Group, 'create_dataset'), (h5py.Group, 'create_group'), (h5py.Group, '__getitem__'),
        (h5py.Group, '__setitem__'), (h5py.Group, '__delitem__'), (h5py.Group, 'get'), (h5py.Group, '__iter__'),
        (h5py.AttributeManager, '__setitem__'), (h5py.AttributeManager, '__getitem__'),
        (h5py.AttributeManager, 'create'), (h5py.AttributeManager, 'get'), (h5py.AttributeManager, '__iter__'),
        (h5py.Dataset, '__getitem__'), (h5py.Dataset, '__setitem__'),
        (h5py.File, 'flush'), (h5py.File, 'close'),
    ]

    def __init__(self):
        self.armed = False
        self.reset()

    def reset(self):
        self.count = 0
        self.nth = None
        self.sticky = False
        self.exc = OSError
        self.only = None
        self.sites = {}
        self.fired = []
        self.log = []

    def arm(self, nth=None, exc=OSError, sticky=False, only=None, log=False):
        self.reset()
        self.nth, self.exc, self.sticky, self.only, self.logging = nth, exc, sticky, only, log
        self.armed = True

    def disarm(self):
        self.armed = False
        return self.fired

    def hit(self, site):
        self.sites[site] = self.sites.get(site, 0) + 1
        if self.only is not None and site not in self.only:
            return False
        n = self.count
        self.count += 1
        if self.logging:
            self.log.append(site)
        if self.nth is None:
            return False
        if n == self.nth or (self.sticky and n > self.nth and site not in ('File.flush', 'File.close')):
            self.fired.append(site)
            return True
        return False

    def install(self):
        me = self
        for cls, name in self.SITES:
            orig = getattr(cls, name)
            site = '%s.%s' % (cls.__name__, name)

            def make(orig, site):
                @functools.wraps(orig)
                def wrapper(*a, **k):
                    if sched.Sched.current is not None:
                        sched.Sched.current.enter_h5()
                    if me.armed and me.hit(site):
                        if site == 'File.close':
                            orig(*a, **k)
                        raise me.exc('injected fault at %s' % site)
                    return orig(*a, **k)
                return wrapper
            setattr(cls, name, make(orig, site))


class MetaCache:
    """the metadata cache of HDF5 shrunk to its minimum: what otherwise happens to big files
    only (objects written early and rewritten later) then happens to small ones"""
    tiny = False

    @classmethod
    def install(cls):
        def wrap(orig):
            @functools.wraps(orig)
            def opener(*a, **k):
                fid = orig(*a, **k)
                if cls.tiny:
                    c = fid.get_mdc_config()
                    c.set_initial_size = True
                    c.initial_size = c.min_size = c.max_size = 1024
                    c.incr_mode = c.decr_mode = c.flash_incr_mode = 0
                    fid.set_mdc_config(c)
                return fid
            return opener
        h5py.h5f.create = wrap(h5py.h5f.create)
        h5py.h5f.open = wrap(h5py.h5f.open)


# ------------------------------------------------------------------ loader imports

class Interrupted(list):
    """iterating it the first time is interrupted before item n"""

    def __init__(self, items, n, exc, seam, name):
        super().__init__(items)
        self.n, self.exc, self.seam, self.name, self.call = n, exc, seam, name, seam.calls

    def __iter__(self):
        for i, x in enumerate(super().__iter__()):
            if i == self.n and self.exc is not None and self.seam.armed and self.seam.calls == self.call:
                exc, self.exc = self.exc, None
                self.seam.fired.append(self.name)
                raise exc
            yield x


class LoaderImports:
    """makes the nth execution of a hickle loader module fail"""

    def __init__(self):
        self.calls = 0
        self.armed = False
        self.count = 0
        self.nth = None
        self.fired = []
        self.names = []

    def arm(self, nth=None, exc=ImportError, when='before'):
        self.calls += 1
        self.count, self.nth, self.exc, self.when, self.fired, self.names = 0, nth, exc, when, [], []
        self.armed = True

    def disarm(self):
        self.armed = False
        return self.fired

    def install(self):
        me = self
        orig = importlib.machinery.SourceFileLoader.exec_module

        def exec_module(self, module):
            if me.armed and 'load_' in module.__name__ and 'hickle' in module.__name__:
                n = me.count
                me.count += 1
                me.names.append(module.__name__)
                if n == me.nth:
                    if me.when != 'before':
                        orig(self, module)
                    reg = getattr(module, 'class_register', None)
                    if isinstance(me.when, int) and reg:
                        # interrupted while the classes of the loader are registered
                        module.class_register = Interrupted(reg, me.when % len(reg), me.exc('injected fault while registering %s' % module.__name__),
                                                            me, module.__name__)
                        return
                    me.fired.append(module.__name__)
                    raise me.exc('injected fault while importing %s' % module.__name__)
            return orig(self, module)
        importlib.machinery.SourceFileLoader.exec_module = exec_module


# ------------------------------------------------------------------ streams

class SimStream:
    """a file-like object under simulator control.

    flavour 'io'    : full io.RawIOBase-like surface (readable/writable/seekable/readinto/truncate)
    flavour 'lean'  : only read, write, seek, tell, truncate, flush (what the docs ask for)
    """

    def __init__(self, data=b'', flavour='io'):
        self._b = io.BytesIO(data)
        self.flavour = flavour
        self.calls = 0
        self.nth = None
        self.sticky = False
        self.exc = OSError
        self.fired = 0
        self.closed_by_hickle = False
        self.log = []
        if flavour == 'io':
            self.readinto = self._readinto
            self.readable = lambda: True
            self.writable = lambda: True
            self.seekable = lambda: True
            self.closed = False

    def arm(self, nth=None, exc=OSError, sticky=False):
        self.calls, self.nth, self.exc, self.sticky, self.fired = 0, nth, exc, sticky, 0

    def disarm(self):
        self.nth = None
        return self.fired

    def _tick(self, what):
        n = self.calls
        self.calls += 1
        if self.nth is not None and (n == self.nth or (self.sticky and n > self.nth)):
            self.fired += 1
            raise self.exc(errno.EIO, 'injected stream fault')

    def read(self, n=-1):
        if n != 0:
            self._tick('read')
        return self._b.read(n)

    def _readinto(self, buf):
        self._tick('read')
        return self._b.readinto(buf)

    def write(self, data):
        if len(data):
            self._tick('write')
        return self._b.write(data)

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()

    def truncate(self, n=None):
        self._tick('truncate')
        return self._b.truncate(n)

    def flush(self):
        self._tick('flush')

    def close(self):
        self.closed_by_hickle = True

    def getvalue(self):
        return self._b.getvalue()


# ------------------------------------------------------------------ probes

def open_h5_files(memory=True):
    """HDF5 file ids currently open in this process (any driver; memory=False: those with a file behind)"""
    n = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
    if memory or not n:
        return n
    return sum(1 for i in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
               if i.get_access_plist().get_driver() != h5py.h5fd.CORE)


def open_h5_objects():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL)


def gc_enabled():
    return gc.isenabled()


EXCS = {'OSError': OSError, 'RuntimeError': RuntimeError, 'KeyboardInterrupt': KeyboardInterrupt,
        'MemoryError': MemoryError, 'ImportError': ImportError, 'ValueError': ValueError, 'TypeError': TypeError,
        'KeyError': KeyError, 'AttributeError': AttributeError, 'SystemExit': SystemExit}
