"""Recipes: JSON trees that describe Python objects; build(), generate(), same().

A recipe is a list [kind, ...].  Building one is deterministic, so a replay file
holds recipes, and shrinking works on recipes.
"""
import array
import collections
import datetime
import decimal
import enum
import fractions
import io
import math
import pickle
import random

import numpy as np

# ---------------------------------------------------------------- building

_INT_D = ['int8', 'uint8', 'int16', 'int32', 'int64', 'uint16', 'uint32', 'uint64']
_FLT_D = ['float16', 'float32', 'float64', '>f8', '>i4', '>f4', '<i8', '>u2', '>f2', '>u8']
_CPX_D = ['complex64', 'complex128', '>c8', '>c16']
ARR_DTYPES = _INT_D + _FLT_D + _CPX_D + ['bool']


def array_of(dtype, shape, seed, order='C'):
    rs = np.random.RandomState(seed & 0x7fffffff)
    dt = np.dtype(dtype)
    n = int(np.prod(shape)) if shape else 1
    if n == 0:
        dt = dt.newbyteorder('=')   # pickle does not keep the byte order of an empty array
    if dt.kind == 'b':
        a = rs.randint(0, 2, n).astype(bool)
    elif dt.kind in 'iu':
        info = np.iinfo(dt)
        a = rs.randint(max(info.min, -2**62), min(info.max, 2**62), n).astype(dt)
        if n:
            a[0] = info.max
        if n > 1:
            a[-1] = info.min
    elif dt.kind == 'f':
        a = (rs.standard_normal(n) * 100).astype(dt)
        if n > 2:
            a[0], a[1], a[2] = np.inf, np.nan, -0.0
    elif dt.kind == 'c':
        a = (rs.standard_normal(n) + 1j * rs.standard_normal(n)).astype(dt)
        if n > 1:
            a[0] = complex(float('nan'), 1.0)
    else:
        raise ValueError(dtype)
    a = a.reshape(shape)
    return np.asfortranarray(a) if order == 'F' else a


_twin = None     # the user's classes for the oracle's own use, when the process must not know them


def simworld():
    if _twin is not None:
        return _twin
    import simworld as m
    return m


class Builder:
    """builds the object of one recipe; 'def'/'ref' give shared references"""

    def __init__(self):
        self.defs = {}
        self.bombs = 0

    def build(self, r):
        k = r[0]
        return getattr(self, 'b_' + k)(*r[1:])

    def b_int(self, s):
        return int(s)

    def b_float(self, s):
        return float(s) if s in ('inf', '-inf', 'nan') else float.fromhex(s)

    def b_complex(self, a, b):
        return complex(self.b_float(a), self.b_float(b))

    def b_bool(self, v):
        return bool(v)

    def b_none(self):
        return None

    def b_str(self, s):
        # a fresh object each time (defeat literal interning where Python allows)
        return s.encode('utf8', 'surrogatepass').decode('utf8', 'surrogatepass')

    def b_bytes(self, h):
        return bytes.fromhex(h)

    def b_list(self, items):
        return [self.build(x) for x in items]

    def b_tuple(self, items):
        return tuple(self.build(x) for x in items)

    def b_set(self, items):
        return set(self.build(x) for x in items)

    def b_dict(self, items):
        d = {}
        for kx, vx in items:
            d[self.build(kx)] = self.build(vx)
        return d

    def b_rep(self, n, item):
        """a list of n fresh copies of one recipe"""
        return [self.build(item) for _ in range(n)]

    def b_def(self, n, item):
        v = self.build(item)
        self.defs[n] = v
        return v

    def b_ref(self, n):
        return self.defs.get(n)

    def b_range(self, n, m):
        return list(range(n, m))

    def b_frange(self, n, step):
        return [i * step for i in range(n)]

    def b_nps(self, dtype, seed):
        return array_of(dtype, (1,), seed)[0]

    def b_arr(self, dtype, shape, seed, order='C'):
        return array_of(dtype, tuple(shape), seed, order)

    def b_view(self, dtype, n, seed, how):
        """an array which is not contiguous, or read-only"""
        a = array_of(dtype, (n, 4), seed)
        if how == 'step':
            return a[::2, ::3]
        if how == 'neg':
            return a[::-1]
        if how == 'T':
            return a.T
        if how == 'bcast':
            return np.broadcast_to(a[:1], (3, 4))
        a.flags.writeable = False
        return a

    def b_strarr(self, items, shape):
        return np.array(items, dtype=str).reshape(shape)

    def b_ustr(self, width, shape, items):
        """string array of a fixed width, possibly without any item"""
        a = np.zeros(tuple(shape), dtype='U%d' % width)
        for i in range(a.size):
            a.flat[i] = items[i % len(items)]
        return a

    def b_bytesarr(self, items, shape=None):
        a = np.array([bytes.fromhex(x) for x in items], dtype='S')
        return a if shape is None else a.reshape(shape)

    def b_objarr(self, items, shape=None):
        a = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            a[i] = self.build(x)
        return a if shape is None else a.reshape(tuple(shape))

    STRUCT = {'ab': [('a', '<i4'), ('b', '<f8')], 'abs': [('a', '>i2'), ('s', 'S3'), ('v', '<f4', (2,))],
              'nest': [('a', '<i4'), ('n', [('x', '<f8'), ('y', '?')])]}

    def b_struct(self, which, shape, seed):
        a = np.zeros(tuple(shape), dtype=self.STRUCT[which])
        rs = np.random.RandomState(seed & 0x7fffffff)
        raw = rs.randint(-99, 99, max(a.size, 1))
        a['a'] = raw[:a.size].reshape(a.shape)
        if which == 'ab':
            a['b'] = (raw[:a.size] / 4.).reshape(a.shape)
        elif which == 'abs':
            a['s'] = b'xy'
            a['v'][...] = 1.5
        else:
            a['n']['x'] = 2.5
            a['n']['y'] = True
        return a

    def b_sdtype(self, which):
        return np.dtype(self.STRUCT[which])

    def b_npstr(self, s):
        return np.str_(s)

    def b_npbytes(self, h):
        return np.bytes_(bytes.fromhex(h))

    def b_masked(self, dtype, shape, seed, mseed):
        a = array_of(dtype, tuple(shape), seed)
        m = array_of('bool', tuple(shape), mseed)
        return np.ma.array(a, mask=m)

    def b_maskedx(self, how, seed):
        if how == 'nomask':
            return np.ma.array(array_of('int32', (3,), seed))
        if how == 'scalar':
            return np.ma.array(float(seed), mask=bool(seed & 1))
        if how == 'const':
            return np.ma.masked
        if how == 'str':
            return np.ma.array(['a', 'bb', 'ccc'], mask=[seed & 1, 0, seed & 2])
        a = np.ma.array(self.b_struct('ab', (3,), seed))
        a.mask[0] = (True, False)
        a.mask[2] = (seed & 1, True)
        return a

    def b_strmatrix(self, items, c):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return np.matrix([items[i:i + c] for i in range(0, len(items), c)])

    def b_matrix(self, dtype, r, c, seed):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return np.matrix(array_of(dtype, (r, c), seed))

    def b_dtype(self, s):
        return np.dtype(s)

    def b_sparse(self, fmt, r, c, seed):
        import scipy.sparse as sp
        rs = np.random.RandomState(seed & 0x7fffffff)
        d = rs.randint(-5, 6, (r, c)) * rs.randint(0, 2, (r, c))
        return {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'bsr': sp.bsr_matrix}[fmt](d.astype('float64'))

    def b_sparsex(self, fmt, dtype, how, seed):
        import scipy.sparse as sp
        cls = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'bsr': sp.bsr_matrix}[fmt]
        rs = np.random.RandomState(seed & 0x7fffffff)
        if how == 'empty':
            return cls((4, 6), dtype=dtype)
        d = (rs.randint(-5, 6, (4, 6)) * rs.randint(0, 2, (4, 6))).astype(dtype)
        if how == 'zeros':
            a = cls(d)
            if a.data.size:
                a.data.flat[0] = 0
            return a
        if how == 'unsorted' and fmt != 'bsr':
            ind = {'csr': ([2, 0, 1], [0, 2, 3, 3, 3]), 'csc': ([2, 0, 1], [0, 2, 3, 3, 3, 3, 3])}[fmt]
            return cls((np.array([1, 2, 3], dtype=dtype), *ind), shape=(4, 6))
        if fmt == 'bsr':
            return cls(d, blocksize=(2, 3))
        return cls(d)

    def b_quantity(self, seed, n, unit):
        from astropy.units import Quantity
        return Quantity(array_of('float64', (n,), seed)[3:].copy() if n > 3 else np.arange(n) * 1.5, unit)

    def b_quantityx(self, how, seed, unit):
        from astropy.units import Quantity
        if how == 'scalar':
            return Quantity(seed / 8., unit)
        if how == '2d':
            return Quantity(np.arange(6.).reshape(2, 3) + seed, unit)
        return Quantity(np.arange(4.) + seed)

    def b_lonlat(self, which, vals):
        from astropy.coordinates import Latitude, Longitude
        return (Longitude if which == 'lon' else Latitude)(vals, 'deg')

    def b_skyx(self, how, ra, dec):
        from astropy import units as u
        from astropy.coordinates import SkyCoord
        if how == 'scalar':
            return SkyCoord(ra[0], dec[0], unit='deg')
        if how == 'dist':
            return SkyCoord(ra * u.deg, dec * u.deg, distance=np.arange(1., len(ra) + 1) * u.pc)
        return SkyCoord(ra, dec, unit='deg', frame=how)

    def b_tablex(self, how, n, seed):
        from astropy.table import Table
        rs = np.random.RandomState(seed & 0x7fffffff)
        t = Table([rs.randint(0, 9, n), rs.standard_normal(n)], names=['a', 'b'])
        if how == 'meta':
            t.meta['k'] = 'v%d' % (seed % 10)
            t.meta['n'] = seed % 100
        elif how == 'meta2':
            t.meta.update([{'type': 'x'}, {'l': [1, 2]}, {'d': {'e': 1}}, {'n': None}, {'b': True, 'f': 1.5, 'u': '\u00fc'}][seed % 5])
        elif how == 'mask':
            t = Table(t, masked=True)
            t['b'].mask[::2] = True
        elif how == 'unit':
            t['b'].unit = 'm'
        elif how == 'str':
            t['s'] = ['x' * (1 + (i + seed) % 4) for i in range(n)]
        elif how == 'bytes':
            t['s'] = np.array([b'y' * (1 + (i + seed) % 4) for i in range(n)])
        elif how == '2d':
            t['m'] = rs.standard_normal((n, 3))
        return t

    def b_angle(self, vals, unit):
        from astropy.coordinates import Angle
        return Angle(vals, unit)

    def b_time(self, vals, fmt, scale):
        from astropy.time import Time
        return Time(vals, format=fmt, scale=scale)

    def b_const(self, name):
        import astropy.constants as c
        return getattr(c, name)

    def b_sky(self, ra, dec):
        from astropy.coordinates import SkyCoord
        return SkyCoord(ra, dec, unit='deg')

    def b_table(self, n, seed):
        from astropy.table import Table
        rs = np.random.RandomState(seed & 0x7fffffff)
        return Table([rs.randint(0, 9, n), rs.standard_normal(n), rs.randint(0, 2, n).astype(bool)],
                     names=['a', 'b', 'c'])

    # subclasses of builtin types, and other things from the standard library
    def b_sub(self, name, item):
        import simsub
        return getattr(simsub, name)(self.build(item))

    def b_point(self, x, y):
        import simsub
        return simsub.Point(self.build(x), self.build(y))

    def b_enum(self, name):
        import simsub
        c, m = name.split('.')
        return getattr(simsub, c)[m]

    def b_odict(self, items):
        return collections.OrderedDict((self.build(k), self.build(v)) for k, v in items)

    def b_counter(self, items):
        return collections.Counter({k: v for k, v in items})

    def b_ddict(self, items):
        d = collections.defaultdict(list)
        for k, v in items:
            d[k].append(v)
        return d

    def b_deque(self, items, maxlen):
        return collections.deque([self.build(x) for x in items], maxlen)

    def b_bytearray(self, h):
        return bytearray.fromhex(h)

    def b_stdarray(self, code, items):
        return array.array(code, items)

    def b_decimal(self, s):
        return decimal.Decimal(s)

    def b_datetime(self, n):
        return datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=n, microseconds=n % 999)

    def b_pyrange(self, a, b, c):
        return range(a, b, c)

    def b_slice(self, a, b):
        return slice(a, b)

    def b_ellipsis(self):
        return Ellipsis

    # things hickle can only pickle
    def b_date(self, o):
        return datetime.date.fromordinal(o)

    def b_frac(self, a, b):
        return fractions.Fraction(a, b)

    def b_frozen(self, items):
        return frozenset(self.build(x) for x in items)

    def b_func(self, name):
        return {'sqrt': math.sqrt, 'list': list, 'array': np.array, 'ndarray': np.ndarray,
                'Fraction': fractions.Fraction, 'len': len}[name]

    def b_plain(self, item):
        return simworld().Plain(self.build(item))

    def b_rich(self, name, item):
        return simworld().Rich(name, self.build(item))

    def b_flat(self, shape, seed, tag):
        return simworld().Flat(array_of('float64', tuple(shape), seed), tag)

    def b_always(self, items):
        return simworld().Always([self.build(x) for x in items])

    def b_legacy(self, version, rec=None):
        if rec is not None:
            import legacy
            return legacy.Doc(version, rec)
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'golden', version + '.pkl'), 'rb') as f:
            return pickle.load(f)

    def b_bomb(self, tag):
        self.bombs += 1
        return simworld().Bomb(tag)


def build(recipe):
    return Builder().build(recipe)


# ---------------------------------------------------------------- generating

WORDS = ['', 'a', 'key', 'x/y', 'a\\b', '/', '\\', '"q"', "it's", 'data', 'data0', 'data1', 'mask', 'shape', 'ünïcode',
         '日本', 'sp ace', '.', '..', 'a.b', 'None', 'True', '0', '1.0', '\n', 'tab\t', 'b"x"', '"', 'hickle_types_table',
         'type', 'base_type', '😀', 'long' * 60]
BYTES = ['', '00', '61', 'ff', '6100', '0061', '2f', '5c', '22', '68656c6c6f', 'e697a5', 'c328', '610062', '5c2f5c']
UNITS = ['m', 's', 'kg', 'm / s', 'Hz', 'Jy', 'K', 'km / s2', 'erg / (s cm2)', 'deg', 'mag', '1 / m3', 'm(1/2)', 'Mpc', '%']


class Gen:
    """seeded generator of recipes; `rng` is the run's random.Random"""

    def __init__(self, rng, *, custom=False, astropy=True, pickled=True, refs=True, bombs=False, size=12,
                 always=False):
        self.rng = rng
        self.custom, self.astropy, self.pickled, self.refs, self.bombs = custom, astropy, pickled, refs, bombs
        self.budget = size
        self.always = always or custom
        self.ndef = 0
        self.avail = []
        self.nbomb = 0

    def top(self):
        r = self.rng.random()
        if r < 0.12:
            return self.leaf()
        return self.node(0)

    # -- numbers
    def g_int(self):
        rng = self.rng
        c = rng.random()
        if c < 0.4:
            v = rng.randint(-5, 5)
        elif c < 0.7:
            v = rng.choice([2**31, -2**31, 2**53 + 1, 2**62, 2**63 - 1, -2**63 + 1, 255, 256, 65535])
        elif c < 0.85:
            v = rng.choice([2**63, -2**63, 2**64, 2**64 + 1, -2**64, 10**30, -10**40, 2**200 + 1])
        else:
            v = rng.getrandbits(rng.randint(1, 62))
        return ['int', str(v)]

    def g_float(self):
        rng = self.rng
        v = rng.choice([0.0, -0.0, 1.5, math.pi, 1e308, 5e-324, float('inf'), float('-inf'), float('nan'),
                        rng.random(), rng.gauss(0, 1e6)])
        return ['float', str(v) if (math.isinf(v) or math.isnan(v)) else v.hex()]

    def g_str(self):
        rng = self.rng
        c = rng.random()
        if c < 0.5:
            return ['str', rng.choice(WORDS)]
        if c < 0.6:
            return ['str', 'L' * rng.choice([100, 1000, 5000])]
        return ['str', ''.join(rng.choice('abcXYZ 01äß€\0\n/\\"\'') for _ in range(rng.randint(0, 12)))]

    def g_bytes(self):
        rng = self.rng
        if rng.random() < 0.5:
            return ['bytes', rng.choice(BYTES)]
        return ['bytes', bytes(rng.randrange(256) for _ in range(rng.randint(0, 20))).hex()]

    def shape(self, allow0=True):
        rng = self.rng
        nd = rng.choice([1, 1, 1, 2, 2, 3])
        return [rng.choice([1, 2, 3, 5, 8] + ([0] if allow0 else [])) if rng.random() < .9 else 40 for _ in range(nd)]

    def g_arr(self):
        rng = self.rng
        c = rng.random()
        if c < 0.1:
            return ['arr', rng.choice(ARR_DTYPES), [rng.choice([200, 3000, 20000])], rng.getrandbits(20)]
        return ['arr', rng.choice(ARR_DTYPES), self.shape(), rng.getrandbits(20), rng.choice('CF')]

    def g_odd(self):
        """numpy and scipy objects off the beaten track"""
        rng = self.rng
        sd = rng.getrandbits(20)
        c = rng.randrange(12)
        if c == 0:
            return ['arr', rng.choice(ARR_DTYPES), [], sd]
        if c == 1:
            return ['view', rng.choice(ARR_DTYPES), rng.randint(1, 5), sd, rng.choice(['step', 'neg', 'T', 'bcast', 'ro'])]
        if c == 2:
            return ['ustr', rng.randint(1, 5), rng.choice([[0], [2, 0], [], [1], [3], [2, 2]]),
                    [rng.choice(['', 'a', 'bb', 'ü', '日']) for _ in range(3)]]
        if c == 3:
            return ['bytesarr', [rng.choice(['61', '6262', '636363', '', 'ff']) for _ in range(4)], rng.choice([[4], [2, 2], [4, 1]])]
        if c == 4:
            items = [rng.choice([['int', '1'], ['str', 'o'], ['none'], ['list', [['int', '1'], ['str', 'z']]], ['float', '0x1p-1'],
                                 ['list', [['int', '3'], ['int', '4']]], ['arr', 'float64', [2], 3]]) for _ in range(4)]
            if rng.random() < .3:
                items = [['list', [['int', str(rng.randint(0, 9))] for _ in range(2)]] for _ in range(4)]
            return ['objarr', items, rng.choice([[4], [2, 2], [1, 4], [4, 1]])] if rng.random() < .8 else ['objarr', items[:1], []]
        if c == 5:
            return ['struct', rng.choice(['ab', 'abs', 'nest']), rng.choice([[1], [3], [0], [2, 2], []]), sd]
        if c == 6:
            return ['sdtype', rng.choice(['ab', 'abs', 'nest'])]
        if c == 7:
            return rng.choice([['npstr', rng.choice(['', 'a', 'ü日'])], ['npbytes', rng.choice(['', '61', 'ff61'])]])
        if c == 8:
            return ['maskedx', rng.choice(['nomask', 'scalar', 'const', 'str', 'struct']), sd]
        if c == 9:
            return ['strmatrix', [rng.choice(['a', 'bb', 'ü']) for _ in range(4)], rng.choice([1, 2, 4])]
        if c == 10:
            return ['sparsex', rng.choice(['csr', 'csc', 'bsr']), rng.choice(['int32', 'float32', 'float64', 'complex128', 'int8']),
                    rng.choice(['empty', 'zeros', 'unsorted', 'plain']), sd]
        return [rng.choice(['list', 'tuple']), [rng.choice([['nps', rng.choice(ARR_DTYPES), rng.getrandbits(8)], self.g_int(), ['bool', True],
                                                            ['float', '0x1p-3']]) for _ in range(rng.randint(1, 4))]]

    def g_astro(self):
        rng = self.rng
        sd = rng.getrandbits(10)
        c = rng.randrange(4)
        if c == 0:
            return ['quantityx', rng.choice(['scalar', '2d', 'dimless']), sd, rng.choice(UNITS)]
        if c == 1:
            return ['lonlat', rng.choice(['lon', 'lat']), [rng.randint(-80, 80) for _ in range(rng.randint(1, 3))]]
        if c == 2:
            return ['skyx', rng.choice(['scalar', 'dist', 'galactic', 'fk5', 'icrs']), [float(rng.randint(0, 359)), 1.5], [float(rng.randint(-80, 80)), 2.5]]
        return ['tablex', rng.choice(['meta', 'meta2', 'mask', 'unit', 'str', 'bytes', '2d']), rng.randint(1, 5), sd]

    def g_std(self):
        """subclasses and containers of the standard library"""
        rng = self.rng
        small = lambda: rng.choice([['int', str(rng.randint(0, 9))], ['str', rng.choice(WORDS)], ['none'], ['float', '0x1.8p+0']])
        c = rng.randrange(15)
        n = rng.randint(0, 3)
        if c == 0:
            return ['sub', 'SubList', ['list', [small() for _ in range(n)]]]
        if c == 1:
            return ['sub', 'SubTuple', ['tuple', [small() for _ in range(n)]]]
        if c == 2:
            return ['sub', 'SubDict', ['dict', [[['str', 'k%d' % i], small()] for i in range(n)]]]
        if c == 3:
            return ['sub', 'SubSet', ['set', [['int', str(i)] for i in range(n)]]]
        if c == 4:
            return ['sub', rng.choice(['SubStr']), self.g_str()]
        if c == 5:
            return ['sub', 'SubBytes', self.g_bytes()]
        if c == 6:
            return rng.choice([['sub', 'SubInt', self.g_int()], ['sub', 'SubFloat', self.g_float()]])
        if c == 7:
            return ['point', small(), small()]
        if c == 8:
            return ['enum', rng.choice(['Color.RED', 'Color.BLUE', 'Level.LOW', 'Level.HIGH'])]
        if c == 9:
            return ['odict', [[['str', 'z%d' % (9 - i)], small()] for i in range(n)]]
        if c == 10:
            return rng.choice([['counter', [['a', 2], ['b', 5]][:n]], ['ddict', [['k', 1], ['l', 2], ['k', 3]][:n]]])
        if c == 11:
            return ['deque', [small() for _ in range(n)], rng.choice([None, 5])]
        if c == 12:
            return rng.choice([['bytearray', rng.choice(BYTES)], ['stdarray', 'd', [1.5, 2.5]], ['stdarray', 'i', [1, 2]]])
        if c == 13:
            return rng.choice([['decimal', '1.10'], ['decimal', 'NaN'], ['datetime', rng.getrandbits(30)]])
        return rng.choice([['pyrange', 0, 9, 2], ['slice', 1, None], ['ellipsis']])

    def leaf(self):
        rng = self.rng
        opts = [self.g_int, self.g_int, self.g_float, self.g_float, self.g_str, self.g_str, self.g_bytes,
                lambda: ['complex', self.g_float()[1], self.g_float()[1]],
                lambda: ['bool', rng.random() < .5], lambda: ['none'],
                self.g_arr, self.g_arr, self.g_arr,
                lambda: ['nps', rng.choice(ARR_DTYPES), rng.getrandbits(20)],
                lambda: ['range', rng.randint(-3, 3), rng.randint(4, 30)],
                lambda: ['frange', rng.randint(1, 20), 0.25],
                lambda: ['strarr', [rng.choice(['a', 'bb', 'ccc', 'ü', 'x/y', '1']) for _ in range(4)],
                         rng.choice([[4], [2, 2], [1, 4]])],
                lambda: ['bytesarr', [rng.choice(['61', '6262', '636363']) for _ in range(rng.randint(1, 4))]],
                lambda: ['masked', rng.choice(['int32', 'float64']), self.shape(False), rng.getrandbits(20), rng.getrandbits(20)],
                lambda: ['matrix', rng.choice(['float64', 'int32']), rng.randint(1, 3), rng.randint(1, 4), rng.getrandbits(20)],
                lambda: ['dtype', rng.choice(['float64', '>i4', 'S5', 'U7', 'bool', 'complex64', 'O', 'V3', 'M8[s]'])],
                self.g_odd, self.g_odd, self.g_odd, self.g_odd,
                lambda: ['sparse', rng.choice(['csr', 'csc', 'bsr']), rng.randint(1, 5), rng.randint(1, 5), rng.getrandbits(20)],
                ]
        if self.astropy:
            opts += [
                lambda: ['quantity', rng.getrandbits(20), rng.randint(1, 9), rng.choice(UNITS)],
                lambda: ['angle', [rng.randint(0, 359) for _ in range(rng.randint(1, 4))], rng.choice(['deg', 'rad'])],
                lambda: rng.choice([['time', [2450000.5 + rng.randint(0, 999), 2451000.25], 'jd', rng.choice(['utc', 'tai'])],
                                    ['time', ['1999-01-01T00:00:00.123', '2010-01-0%dT00:00:00.000' % rng.randint(1, 9)], 'isot', 'utc'],
                                    ['time', [float(rng.randint(50000, 59000))], 'mjd', 'utc']]),
                lambda: ['const', rng.choice(['G', 'c', 'h', 'M_sun'])],
                lambda: ['sky', [float(rng.randint(0, 359)), 10.5], [float(rng.randint(-80, 80)), -5.25]],
                lambda: ['table', rng.randint(1, 6), rng.getrandbits(20)],
                self.g_astro, self.g_astro,
            ]
        if self.pickled:
            opts += [
                lambda: ['date', 700000 + rng.randint(0, 40000)],
                lambda: ['frac', rng.randint(-50, 50), rng.randint(1, 50)],
                lambda: ['frozen', [['int', str(rng.randint(0, 9))] for _ in range(rng.randint(0, 4))]],
                self.g_std, self.g_std,
                lambda: ['func', rng.choice(['sqrt', 'list', 'array', 'ndarray', 'Fraction', 'len'])],
                lambda: ['plain', rng.choice([['int', '7'], ['str', 'p'], ['list', [['int', '1']]]])],
            ]
        if self.custom:
            opts += [lambda: ['flat', [rng.randint(1, 6)], rng.getrandbits(20), rng.choice(WORDS[1:5])],
                     lambda: ['flat', [3, 2], rng.getrandbits(20), 't']]
        return rng.choice(opts)()

    def key(self):
        rng = self.rng
        c = rng.random()
        if c < 0.45:
            return self.g_str()
        if c < 0.6:
            return self.g_bytes()
        if c < 0.75:
            return self.g_int()
        if c < 0.82:
            k = self.g_float()
            return k if k[1] != 'nan' else ['float', '0x1p-1']
        if c < 0.86:
            return ['complex', (1.5).hex(), float(rng.randint(-3, 3)).hex()]
        if c < 0.90:
            return ['bool', rng.random() < .5]
        if c < 0.93:
            return ['none']
        return ['tuple', [rng.choice([['int', '1'], ['str', 'a'], ['float', '0x1p-2'], ['none']]) for _ in range(rng.randint(0, 3))]]

    def member(self):
        rng = self.rng
        c = rng.random()
        if c < .5:
            return ['int', str(rng.randint(-50, 50))]
        if c < .8:
            return self.g_str()
        return rng.choice([['float', (0.5).hex()], ['none'], ['bytes', '6162'], ['tuple', [['int', '1'], ['str', 'z']]]])

    def node(self, depth):
        rng = self.rng
        self.budget -= 1
        if self.refs and self.avail and rng.random() < 0.15:
            return ['ref', rng.choice(self.avail)]
        if depth > 4 or self.budget <= 0 or rng.random() < 0.35:
            r = self.leaf()
            if self.refs and rng.random() < 0.3 and r[0] not in ('int', 'float', 'complex', 'bool', 'none', 'nps'):
                return self._define(r)
            return r
        if self.bombs and rng.random() < 0.12:
            self.nbomb += 1
            return ['bomb', 'b%d' % self.nbomb]
        c = rng.random()
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]) if rng.random() < .93 else rng.choice([9, 11, 13, 21])
        if c < 0.3:
            r = ['list', [self.node(depth + 1) for _ in range(n)]]
        elif c < 0.45:
            r = ['tuple', [self.node(depth + 1) for _ in range(n)]]
        elif c < 0.8:
            seen, items = set(), []
            for _ in range(n):
                k = self.key()
                try:
                    kv = build(k)
                    if kv in seen:
                        continue
                    seen.add(kv)
                except TypeError:
                    continue
                items.append([k, self.node(depth + 1)])
            r = ['dict', items]
        elif c < 0.88:
            r = ['set', [self.member() for _ in range(n)]]
        elif c < 0.92:
            r = ['rep', rng.randint(2, 6), rng.choice([['int', '5'], ['float', (1.25).hex()], ['str', 'same'],
                                                        ['bytes', '6162'], ['list', [['int', '1'], ['str', 'q']]],
                                                        ['arr', 'float64', [3], 5]])]
        elif self.always and c < 0.97:
            if self.custom and rng.random() < .6:
                r = ['rich', rng.choice(['n1', 'n/2']), self.node(depth + 1)]
            else:
                r = ['always', [self.node(depth + 1) for _ in range(min(n, 3))]]
        else:
            r = ['list', [self.g_int() for _ in range(n)]]
        if self.refs and rng.random() < 0.35:
            return self._define(r)
        return r

    def _define(self, r):
        n = self.ndef
        self.ndef += 1
        self.avail.append(n)
        return ['def', n, r]


# ---------------------------------------------------------------- comparing

NUM = (int, float, complex, np.number, np.bool_)
ATOMIC_LIST = (bool, int, float, complex)


class Diff(Exception):
    pass


def _numeq(a, b):
    try:
        if a == b:
            if isinstance(a, float) and a == 0.0 and isinstance(b, (float, np.floating)):
                return math.copysign(1, a) == math.copysign(1, float(b))
            return True
        if a != a and b != b:
            if isinstance(a, complex) or isinstance(b, complex):
                a, b = complex(a), complex(b)
                return repr(a) == repr(b)
            return True
    except Exception:
        return False
    return False


def _arreq(a, b, what, path, anyorder=False):
    if (a.dtype.newbyteorder('=') != b.dtype.newbyteorder('=')) if anyorder else (a.dtype != b.dtype):
        raise Diff('%s: dtype %s became %s' % (path, a.dtype, b.dtype))
    if a.shape != b.shape:
        raise Diff('%s: shape %s became %s' % (path, a.shape, b.shape))
    if a.dtype.kind == 'O':
        return
    if a.dtype.kind in 'fc':
        ok = np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True) and \
            np.array_equal(np.signbit(np.asarray(a).real), np.signbit(np.asarray(b).real)) if a.dtype.kind == 'f' else \
            np.array_equal(np.asarray(a).view(a.real.dtype), np.asarray(b).view(b.real.dtype), equal_nan=True) if a.ndim and a.flags.c_contiguous and b.flags.c_contiguous else \
            np.array_equal(a, b, equal_nan=True)
    else:
        ok = np.array_equal(np.asarray(a), np.asarray(b))
    if not ok:
        raise Diff('%s: array content differs: %s -> %s' % (path, _short(a), _short(b)))


def _short(x):
    s = repr(x).replace('\n', ' ')
    return s if len(s) < 120 else s[:117] + '...'


KIND = {bool: 'b', int: 'iu', float: 'f', complex: 'c'}


class Comparer:
    """structural equality + aliasing: `a` is what was dumped, `b` what was loaded"""

    def __init__(self, aliasing=True):
        self.aliasing = aliasing
        self.a2b, self.b2a, self.atoms = {}, {}, {}
        self.keep = []
        self.pickled = 0        # within an object which may have been pickled: numpy's own
                                # pickles do not keep the byte order of an array

    def identity(self, a, b, path):
        """mutable objects: same object <-> same object; True when already compared"""
        if not self.aliasing:
            return False
        seen = self.a2b.get(id(a))
        if seen is not None:
            if seen[0] != id(b):
                raise Diff('%s: one shared object was loaded as two (also at %s)' % (path, seen[1]))
            return True
        back = self.b2a.get(id(b))
        if back is not None and back[0] != id(a):
            raise Diff('%s: two distinct objects were loaded as one (also at %s)' % (path, back[1]))
        self.a2b[id(a)] = (id(b), path)
        self.b2a[id(b)] = (id(a), path)
        self.keep.append((a, b))
        return False

    def atom(self, a, b, path):
        """immutable objects stored by reference: same object -> same object (not vice versa)"""
        if not self.aliasing or self.pickled:
            return
        seen = self.atoms.get(id(a))
        if seen is None:
            self.atoms[id(a)] = (id(b), path)
            self.keep.append((a, b))
        elif seen[0] != id(b):
            raise Diff('%s: one shared object was loaded as two (also at %s)' % (path, seen[1]))

    def seq(self, a, b, path, objs=False):
        if len(a) != len(b):
            raise Diff('%s: length %d became %d' % (path, len(a), len(b)))
        numeric = all(isinstance(x, NUM) for x in a)
        kinds = {type(x) for x in a}
        for i, (x, y) in enumerate(zip(a, b)):
            p = '%s[%d]' % (path, i)
            if objs and isinstance(x, NUM) and isinstance(y, NUM):
                # rows of an array of objects are stored like lists
                if not _numeq(x.item() if isinstance(x, np.generic) else x, y.item() if isinstance(y, np.generic) else y):
                    raise Diff('%s: %r became %r' % (p, x, y))
                continue
            if numeric and isinstance(y, (np.number, np.bool_)):
                # documented representation: numeric sequences come back with numpy scalars
                if not _numeq(x.item() if isinstance(x, np.generic) else x, y.item()):
                    raise Diff('%s: %r became %r' % (p, x, y))
                if len(kinds) == 1 and type(x) in KIND and y.dtype.kind not in KIND[type(x)]:
                    raise Diff('%s: %r became %r (other kind)' % (p, x, y))
                continue
            if isinstance(x, bytes) and isinstance(y, np.bytes_):
                if bytes(y) != x:
                    raise Diff('%s: %r became %r' % (p, x, y))
                continue
            self.cmp(x, y, p)

    def cmp(self, a, b, path='obj'):
        ta, tb = type(a), type(b)
        if ta is not tb:
            raise Diff('%s: %s %s became %s %s' % (path, ta.__name__, _short(a), tb.__name__, _short(b)))
        if a is b and ta in (int, str, bytes, float, bool, type(None)):
            return
        if ta in (bool, int, float, complex):
            if not _numeq(a, b):
                raise Diff('%s: %s became %s' % (path, _short(a), _short(b)))
            return
        if a is None:
            return
        if ta in (str, bytes):
            if a != b:
                raise Diff('%s: %s became %s' % (path, _short(a), _short(b)))
            return self.atom(a, b, path)
        if ta is tuple:
            self.atom(a, b, path)
            return self.seq(a, b, path)
        if ta is set or ta is frozenset:
            if self.identity(a, b, path):
                return
            if len(a) != len(b) or not all(x in b for x in a):
                raise Diff('%s: %s became %s' % (path, _short(a), _short(b)))
            return
        if ta is list:
            if self.identity(a, b, path):
                return
            return self.seq(a, b, path)
        if ta is dict:
            if self.identity(a, b, path):
                return
            if len(a) != len(b):
                raise Diff('%s: %d entries became %d: %s -> %s' % (path, len(a), len(b), _short(list(a)), _short(list(b))))
            for i, ((ka, va), (kb, vb)) in enumerate(zip(a.items(), b.items())):
                if isinstance(ka, tuple):
                    Comparer(False).cmp(ka, kb, '%s key#%d' % (path, i))
                elif type(ka) is not type(kb) or not (_numeq(ka, kb) if isinstance(ka, (int, float, complex)) else ka == kb):
                    raise Diff('%s: key#%d %r became %r' % (path, i, ka, kb))
                self.cmp(va, vb, '%s[%s]' % (path, _short(ka)))
            return
        if isinstance(a, np.ma.MaskedArray):
            if self.identity(a, b, path):
                return
            if a is np.ma.masked:
                if b is not np.ma.masked:
                    raise Diff('%s: the masked constant became %s' % (path, _short(b)))
                return
            _arreq(np.asarray(a.data), np.asarray(b.data), 'masked', path + '.data', self.pickled)
            if not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
                raise Diff('%s: mask differs' % path)
            return
        mod = ta.__module__.split('.')[0]
        if mod == 'astropy':
            if self.identity(a, b, path):
                return
            return self.astro(a, b, path)
        if isinstance(a, np.ndarray):
            if self.identity(a, b, path):
                return
            _arreq(a, b, 'array', path, self.pickled)
            if a.dtype.kind == 'O':
                self.seq(a.ravel().tolist(), b.ravel().tolist(), path, True)
            return
        if isinstance(a, np.generic):
            if (a.dtype.newbyteorder('=') != b.dtype.newbyteorder('=')) or not (_numeq(a.item(), b.item()) or a == b):
                raise Diff('%s: %r became %r' % (path, a, b))
            return
        if isinstance(a, np.dtype):
            if a != b:
                raise Diff('%s: %r became %r' % (path, a, b))
            return
        if mod == 'scipy':
            if self.identity(a, b, path):
                return
            if a.shape != b.shape or (not self.pickled and a.dtype != b.dtype) or (a != b).nnz:
                raise Diff('%s: sparse differs' % path)
            for part in ('data', 'indices', 'indptr'):
                if not np.array_equal(getattr(a, part), getattr(b, part)):
                    raise Diff('%s: sparse %s differs: %s -> %s' % (path, part, _short(getattr(a, part)), _short(getattr(b, part))))
            return
        if mod == 'simworld':
            if self.identity(a, b, path):
                return
            self.pickled += 1
            for name in a.__dict__:
                self.cmp(a.__dict__[name], b.__dict__[name], path + '.' + name)
            self.pickled -= 1
            return
        if mod == 'simsub' and not isinstance(a, enum.Enum):
            for t in (list, dict, set):
                if isinstance(a, t):
                    if self.identity(a, b, path):
                        return
                    return Comparer(False).cmp(t(a), t(b), path)
            for t in (tuple, str, bytes, int, float):
                if isinstance(a, t):
                    return self.cmp(t(a), t(b), path) if t is not str else self.cmp(str.__str__(a), str.__str__(b), path)
        if isinstance(a, (collections.OrderedDict, collections.Counter, collections.defaultdict)):
            if self.identity(a, b, path):
                return
            if getattr(a, 'default_factory', None) is not getattr(b, 'default_factory', None):
                raise Diff('%s: default_factory differs' % path)
            return Comparer(False).cmp(dict(a), dict(b), path)
        if isinstance(a, decimal.Decimal):
            if str(a) != str(b):
                raise Diff('%s: %s became %s' % (path, a, b))
            return
        if isinstance(a, collections.deque):
            if self.identity(a, b, path):
                return
            if a.maxlen != b.maxlen:
                raise Diff('%s: maxlen differs' % path)
            return Comparer(False).cmp(list(a), list(b), path)
        if a != b:
            raise Diff('%s: %s became %s' % (path, _short(a), _short(b)))

    def astro(self, a, b, path):
        name = type(a).__name__
        if name == 'Table':
            if a.colnames != b.colnames or len(a) != len(b):
                raise Diff('%s: table columns differ' % path)
            for c in a.colnames:
                _arreq(np.asarray(a[c]), np.asarray(b[c]), 'col', path + '.' + c, self.pickled)
                if not np.array_equal(np.ma.getmaskarray(a[c]), np.ma.getmaskarray(b[c])):
                    raise Diff('%s.%s: mask differs' % (path, c))
                if str(a[c].unit) != str(b[c].unit):
                    raise Diff('%s.%s: unit %s became %s' % (path, c, a[c].unit, b[c].unit))
            if dict(a.meta) != dict(b.meta):
                raise Diff('%s: meta %s became %s' % (path, _short(dict(a.meta)), _short(dict(b.meta))))
            return
        if name == 'Time':
            if a.format != b.format or a.scale != b.scale or not np.all(a.value == b.value):
                raise Diff('%s: Time %s became %s' % (path, _short(a), _short(b)))
            return
        if name == 'SkyCoord':
            if a.frame.name != b.frame.name or a.shape != b.shape:
                raise Diff('%s: SkyCoord %s became %s' % (path, _short(a), _short(b)))
            sa, sb = a.frame.data, b.frame.data
            if type(sa) is not type(sb) or not all(np.all(getattr(sa, c) == getattr(sb, c)) for c in sa.components):
                raise Diff('%s: SkyCoord %s became %s' % (path, _short(a), _short(b)))
            return
        if name == 'Constant' or hasattr(a, 'abbrev'):
            if (a.value, str(a.unit), a.abbrev, a.name, a.uncertainty) != (b.value, str(b.unit), b.abbrev, b.name, b.uncertainty):
                raise Diff('%s: Constant differs' % path)
            return
        if str(a.unit) != str(b.unit) or not np.array_equal(a.value, b.value, equal_nan=True):
            raise Diff('%s: %s became %s' % (path, _short(a), _short(b)))


def same(a, b, aliasing=True):
    """None if b is a faithful copy of a, otherwise a description of the first difference"""
    if type(a).__name__ == 'Doc':
        import legacy
        return legacy.compare(a, b)
    try:
        Comparer(aliasing).cmp(a, b)
    except Diff as d:
        return str(d)
    return None


# ---------------------------------------------------------------- degraded environments

def degraded(obj, env):
    """does obj contain something that can not be restored in env; 'pickle' if only pickled parts"""
    if type(obj).__name__ == 'Doc':
        return 'loader' if obj.degraded else ''
    if env == 'full':
        return ''
    found = set()

    def walk(x, depth=0):
        mod = type(x).__module__
        name = type(x).__name__
        if mod == 'simworld':
            if name in ('Rich', 'Flat', 'Always'):
                found.add('loader')
                for v in x.__dict__.values():
                    walk(v)
            elif env in ('noclass', 'noattr'):
                found.add('pickle')
            return
        if isinstance(x, (list, tuple, set)):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    walk(obj)
    if 'loader' in found:
        return 'loader'
    return 'pickle' if found else ''


class _Unpickler(pickle.Unpickler):
    """unpickles with the classes the process under test does not have"""

    def find_class(self, module, name):
        return getattr(simworld(), name) if module == 'simworld' else super().find_class(module, name)


class Recovering(Comparer):
    """what hickle promises when the class or its loader is gone: the stored data, marked as recovered"""

    def __init__(self, env):
        super().__init__(aliasing=True)
        self.env = env

    def cmp(self, a, b, path='obj'):
        import hickle.lookup as L
        mod, name = type(a).__module__, type(a).__name__
        if mod != 'simworld':
            return super().cmp(a, b, path)
        if name in ('Plain', 'Bomb'):
            if self.env not in ('noclass', 'noattr'):
                return super().cmp(a, b, path)
            if type(b).__name__ != 'RecoveredDataset':
                raise Diff('%s: pickled %s came back as %s' % (path, name, type(b).__name__))
            try:
                x = _Unpickler(io.BytesIO(np.asarray(b).tobytes())).load()
            except Exception as e:
                raise Diff('%s: the recovered pickle string of %s is not usable: %r' % (path, name, e))
            self.identity(a, b, path)
            return Comparer(False).cmp(a, x, path)
        if name == 'Flat':
            if not isinstance(b, np.ndarray) or not isinstance(b, L.AttemptRecoverCustom):
                raise Diff('%s: Flat came back as %s' % (path, type(b).__name__))
            _arreq(np.asarray(a.values), np.asarray(b), 'recovered', path)
            if b.attrs.get('tag') != a.tag:
                raise Diff('%s: attribute tag %r became %r' % (path, a.tag, b.attrs.get('tag')))
            self.base(b, 'simflat', path)
            self.identity(a, b, path)
            return
        if not isinstance(b, dict) or not isinstance(b, L.AttemptRecoverCustom):
            raise Diff('%s: %s came back as %s' % (path, name, type(b).__name__))
        if name == 'Rich':
            want, attrs, base = {'items': a.items}, {'rich_name': a.name}, 'simrich'
        else:
            want, attrs, base = {'item%d' % i: x for i, x in enumerate(a.items)}, {'n': len(a.items)}, 'simalways'
        if set(b) != set(want):
            raise Diff('%s: recovered members %s, stored %s' % (path, sorted(b), sorted(want)))
        for k, v in attrs.items():
            if b.attrs.get(k) != v:
                raise Diff('%s: attribute %s %r became %r' % (path, k, v, b.attrs.get(k)))
        if name == 'Always' and not np.array_equal(b.attrs.get('vec'), np.arange(len(a.items) + 1)):
            raise Diff('%s: attribute vec became %r' % (path, b.attrs.get('vec')))
        self.base(b, base, path)
        if self.identity(a, b, path):
            return
        for k, v in want.items():
            got = b[k]
            if isinstance(got, tuple) and len(got) == 2 and isinstance(got[1], dict):
                got, sub = got
            elif isinstance(got, L.AttemptRecoverCustom):
                # attributes of the first place it appeared at
                sub = got.attrs if id(v) not in self.a2b else None
            else:
                raise Diff('%s.%s: recovered without its attributes: %s' % (path, k, _short(got)))
            if name == 'Always' and sub is not None:
                i = int(k[4:])
                for n, x in (('i', i), ('item_index', i + 1), ('note', 'n\u00fc%d' % i)):
                    if sub.get(n) != x:
                        raise Diff('%s.%s: attribute %s is %r' % (path, k, n, sub.get(n)))
            self.cmp(v, got, '%s.%s' % (path, k))

    def base(self, b, want, path):
        got = b.attrs.get('base_type')
        if isinstance(got, bytes):
            got = got.decode('ascii')
        if got != want:
            raise Diff('%s: recovered base_type is %r, stored by loader %r' % (path, got, want))


def recovered(a, b, env):
    if type(a).__name__ == 'Doc':
        return same(a, b)
    try:
        Recovering(env).cmp(a, b)
    except Diff as d:
        return str(d)
    return None
