"""Files as hickle 3.x and 4.x wrote them, written by the simulator with plain h5py.

The layout was taken from the two files in hickle/tests/legacy_hkls and, for 3.x, from
the dump functions of that version.  Nothing of hickle is used here: what comes out is the
world's idea of an old file, what load() makes of it is judged against the recipe.
"""
import collections
import pickle

import numpy as np

def _dill(name):
    return b'\x80\x03cdill._dill\n_load_type\nq\x00X' + len(name).to_bytes(4, 'little') + name + b'q\x01\x85q\x02Rq\x03.'


GONE = {'module': b'\x80\x03cno_such_module\nGone\nq\x00.', 'name': b'\x80\x03ccollections\nGone\nq\x00.'}
NONE = b'\x80\x03c__builtin__\nNoneType\n.'


def _glob(mod, name):
    return b'\x80\x03c' + mod + b'\n' + name + b'\nq\x00.'


def _s(x):
    return x if isinstance(x, bytes) else x.encode('utf8')


ASTRO = {'quantity': 'quantity', 'quantityx': 'quantity', 'angle': 'angle', 'time': 'time', 'sky': 'skycoord', 'const': 'constant',
         'table': 'table', 'tablex': 'table'}


def astro(k, v):
    """data and attributes both versions stored for an astropy object"""
    if k == 'sky':
        return np.stack((v.data.lon.value, v.data.lat.value), axis=-1), {
            'lon_unit': str(v.data.lon.unit).encode(), 'lat_unit': str(v.data.lat.unit).encode()}
    if k == 'time':
        data = v.value
        if data.dtype.kind == 'U':
            data = np.array([x.encode('ascii') for x in data])
        return data, {'format': v.format.encode(), 'scale': v.scale.encode()}
    if k == 'const':
        attrs = {a: str(getattr(v, a)) for a in ('unit', 'abbrev', 'name', 'reference')}
        attrs['uncertainty'] = v.uncertainty
        if v.system:
            attrs['system'] = v.system
        return np.float64(v.value), attrs
    if k in ('table', 'tablex'):
        attrs = {'colnames': np.array([c.encode('ascii') for c in v.colnames])}
        attrs.update(v.meta)
        return v.as_array(), attrs
    return np.asarray(v.value, 'float64'), {'unit': str(v.unit).encode('ascii')}


class V4:
    """hickle 4.0.x"""

    def __init__(self, defs=None):
        import objects
        self.b = objects.Builder()

    def file(self, h, path, rec):
        g = h if path in ('/', '') else h.require_group(path)
        g.attrs['HICKLE_VERSION'] = '4.0.1'
        g.attrs['HICKLE_PYTHON_VERSION'] = '3.6.9'
        self.node(g, 'data', rec)

    def attrs(self, n, base, typ, gone=None):
        n.attrs['base_type'] = np.bytes_(base)
        if typ is not None:
            n.attrs['type'] = np.array(GONE[gone] if gone else typ)
        return n

    def node(self, g, name, rec, gone=None):
        import h5py
        k = rec[0]
        if k == 'gone':
            return self.node(g, name, rec[2], rec[1])
        if k in ('list', 'tuple'):
            items = rec[1]
            kinds = {x[0] for x in items}
            typ = _dill(k.encode())
            if items and len(kinds) == 1 and kinds <= {'int', 'float'}:
                return self.attrs(g.create_dataset(name, data=np.array([self.b.build(x) for x in items])), k, typ, gone)
            if items and kinds == {'str'} and k == 'list' and all(x[1].isascii() and x[1] and '\0' not in x[1] for x in items) and len({len(x[1]) for x in items}) == 1:
                n = self.attrs(g.create_dataset(name, data=np.array([x[1].encode() for x in items])), k, typ, gone)
                n.attrs['str_type'] = np.bytes_(b'str')
                return n
            n = self.attrs(g.create_group(name), k, typ, gone)
            for i, x in enumerate(items):
                self.node(n, 'data_%d' % i, x)
            return n
        if k in ('dict', 'odict'):
            n = self.attrs(g.create_group(name), 'dict', _dill(b'dict') if k == 'dict' else _glob(b'collections', b'OrderedDict'), gone)
            for i, (kx, vx) in enumerate(rec[1]):
                key = self.b.build(kx)
                s = n.create_group((repr(key) if isinstance(key, str) else str(key)).replace('/', '\\'))
                s.attrs['base_type'] = np.bytes_(b'dict_item')
                s.attrs['key_base_type'] = np.bytes_(type(key).__name__.encode())
                s.attrs['key_type'] = np.array(_dill(type(key).__name__.encode()))
                s.attrs['key_idx'] = i
                self.node(s, 'data', vx)
            return n
        v = self.b.build(rec)
        if k == 'str':
            return self.attrs(g.create_dataset(name, data=v, dtype=h5py.string_dtype('utf-8')), 'str', _dill(b'str'), gone)
        if k == 'bytes':
            return self.attrs(g.create_dataset(name, data=v, dtype=h5py.string_dtype('ascii')), 'bytes', _dill(b'bytes'), gone)
        if k in ('int', 'float'):
            return self.attrs(g.create_dataset(name, data=v), k, _dill(k.encode()), gone)
        if k == 'arr':
            n = self.attrs(g.create_dataset(name, data=v), 'ndarray', _glob(b'numpy', b'ndarray'), gone)
            n.attrs['np_dtype'] = np.bytes_(str(v.dtype).encode())
            return n
        if k == 'strarr':
            a = np.array([x.encode('ascii') for x in v.ravel().tolist()]).reshape(v.shape)
            n = self.attrs(g.create_dataset(name, data=a), 'ndarray', _glob(b'numpy', b'ndarray'), gone)
            n.attrs['np_dtype'] = np.bytes_(v.dtype.str.encode())
            return n
        if k == 'masked':
            n = self.attrs(g.create_dataset(name, data=np.asarray(v.data)), 'ndarray_masked_data', _glob(b'numpy.ma.core', b'MaskedArray'), gone)
            n.attrs['np_dtype'] = np.bytes_(str(v.dtype).encode())
            self.attrs(g.create_dataset(name + '_mask', data=np.ma.getmaskarray(v)), 'ndarray_masked_mask', _glob(b'numpy', b'ndarray'))
            return n
        if k == 'sparse':
            f = rec[1]
            b = (f + '_matrix').encode()
            n = self.attrs(g.create_group(name), b, _glob(b'hickle.loaders.load_scipy', b'return_first'))
            self.attrs(n.create_dataset('data', data=v.data), b, _glob(b'scipy.sparse.' + f.encode(), b))
            for part, x in (('indices', v.indices), ('indptr', v.indptr), ('shape', np.array(v.shape))):
                self.attrs(n.create_dataset(part, data=x), b + b'_' + part.encode(), NONE)
            return n
        if k in ASTRO:
            typ = {'quantity': (b'astropy.units.quantity', b'Quantity'), 'quantityx': (b'astropy.units.quantity', b'Quantity'),
                   'angle': (b'astropy.coordinates.angles', b'Angle'), 'time': (b'astropy.time.core', b'Time'),
                   'sky': (b'astropy.coordinates.sky_coordinate', b'SkyCoord'), 'table': (b'astropy.table.table', b'Table'),
                   'tablex': (b'astropy.table.table', b'Table')}[k]
            data, attrs = astro(k, v)
            n = self.attrs(g.create_dataset(name, data=data), 'astropy_' + ASTRO[k], _glob(*typ), gone)
            for a, x in attrs.items():
                n.attrs[a] = x
            if k == 'time' and data.dtype.kind == 'S':
                n.attrs['np_dtype'] = np.bytes_(data.dtype.str.encode())
            return n
        if k in ('date', 'frac'):
            return self.attrs(g.create_dataset(name, data=np.array(pickle.dumps(v, 2))), 'pickle', None)
        raise ValueError(k)


class V3:
    """hickle 3.4.x"""

    def __init__(self):
        import objects
        self.b = objects.Builder()

    def file(self, h, path, rec):
        h.attrs['CLASS'] = 'hickle'
        h.attrs['VERSION'] = '3.4.9'
        h.attrs['PYTHON_VERSION'] = '3.7.4'
        h.attrs['type'] = np.array([b'hickle'])
        g = h if path in ('/', '') else h.require_group(path)
        g.attrs['type'] = np.array([b'hickle'])
        self.node(g, 'data_0', rec)

    def t(self, n, *typ):
        n.attrs['type'] = np.array(list(typ))
        return n

    def node(self, g, name, rec):
        import h5py
        k = rec[0]
        if k == 'gone':
            return self.node(g, name, rec[2])
        if k in ('list', 'tuple', 'set'):
            items = rec[1]
            kinds = {x[0] for x in items}
            typ = b"<class '" + k.encode() + b"'>"
            if items and len(kinds) == 1 and kinds <= {'int', 'float', 'bool'}:
                return self.t(g.create_dataset(name, data=np.array([self.b.build(x) for x in items])), typ)
            if items and len(kinds) == 1 and kinds <= {'str', 'bytes'} and all(self.b.build(x) and not _s(self.b.build(x)).endswith(b'\0') for x in items):
                n = self.t(g.create_dataset(name, data=np.array([_s(self.b.build(x)) for x in items])), typ)
                n.attrs['py3_string_type'] = np.array([b"<class '" + items[0][0].encode() + b"'>"])
                return n
            n = self.t(g.create_group(name), typ)
            for i, x in enumerate(items):
                self.node(n, 'data_%d' % i, x)
            return n
        if k in ('dict', 'odict'):
            n = self.t(g.create_group(name), b"<class 'dict'>")
            for kx, vx in rec[1]:
                key = self.b.build(kx)
                s = self.t(n.create_group(repr(key) if isinstance(key, str) else str(key)), b'dict_item')
                s.attrs['key_type'] = np.array([("<class '%s'>" % type(key).__name__).encode()])
                self.node(s, 'data_0', vx)
            return n
        v = self.b.build(rec)
        if k == 'str':
            n = g.create_dataset(name, shape=(1,), dtype=h5py.string_dtype('utf-8'))
            n[0] = v
            return self.t(n, b'string')
        if k == 'bytes':
            return self.t(g.create_dataset(name, data=np.array([v])), b'bytes')
        if k in ('int', 'float', 'bool', 'complex'):
            n = self.t(g.create_dataset(name, data=v, dtype=type(v)), b'python_dtype')
            n.attrs['python_subdtype'] = np.bytes_(str(type(v)).encode())
            return n
        if k == 'none':
            return self.t(g.create_dataset(name, data=[0]), b'none')
        if k == 'nps':
            n = self.t(g.create_dataset(name, data=v), b'np_scalar')
            n.attrs['np_dtype'] = np.bytes_(str(v.dtype).encode())
            return n
        if k == 'arr':
            return self.t(g.create_dataset(name, data=v), b'ndarray')
        if k == 'masked':
            n = self.t(g.create_dataset(name, data=np.asarray(v.data)), b'ndarray_masked_data')
            self.t(g.create_dataset(name + '_mask', data=np.ma.getmaskarray(v)), b'ndarray_masked_mask')
            return n
        if k == 'sparse':
            b = (rec[1] + '_matrix').encode()
            n = self.t(g.create_group(name), b)
            for part, x in (('data', v.data), ('indices', v.indices), ('indptr', v.indptr), ('shape', np.array(v.shape))):
                self.t(n.create_dataset(part, data=x), b + b'_' + part.encode())
            return n
        if k == 'dtype':
            return self.t(g.create_dataset(name, data=np.array([str(v).encode()])), b'np_dtype')
        if k in ASTRO:
            data, attrs = astro(k, v)
            n = self.t(g.create_dataset(name, data=data), b'astropy_' + ASTRO[k].encode())
            for a, x in attrs.items():
                n.attrs[a] = np.array([x]) if isinstance(x, bytes) else [x] if k == 'const' else x
            return n
        if k in ('date', 'frac'):
            return self.t(g.create_dataset(name, data=np.array([pickle.dumps(v, 2)])), b'pickle')
        raise ValueError(k)


def write(path, version, at, rec):
    import h5py
    with h5py.File(path, 'w') as h:
        (V3() if version == 'v3' else V4()).file(h, at, rec)


# ---------------------------------------------------------------------- generating

class Gen:
    def __init__(self, rng, version, size=10, gone=0.):
        self.rng, self.v, self.budget, self.gone = rng, version, size, gone

    def leaf(self):
        rng = self.rng
        word = lambda: rng.choice(['a', 'bb', 'hello', 'ü', '日本', 'x/y', 'it\'s', 'sp ace', 'None', 'long' * 60])
        num = lambda: ['int', str(rng.choice([0, 1, -7, 2**40, rng.randint(-9, 9)]))]
        flt = lambda: ['float', rng.choice([0.5, -0.0, 1e300, rng.random()]).hex()]
        sd = rng.getrandbits(16)
        opts = [num, flt, lambda: ['str', word()], lambda: ['bytes', rng.choice(['61', '6262', 'ff61', 'c3bc'])],
                lambda: ['arr', rng.choice(['int8', 'uint16', 'int32', 'int64', 'float32', 'float64', 'complex128', 'bool', '>f8', '>i4']),
                         rng.choice([[3], [2, 3], [1], [0], [2, 0], [2, 2, 2]]), sd],
                lambda: ['masked', rng.choice(['int32', 'float64']), rng.choice([[3], [2, 2]]), sd, rng.getrandbits(8)],
                lambda: ['sparse', rng.choice(['csr', 'csc', 'bsr']), rng.randint(1, 4), rng.randint(1, 4), sd],
                lambda: [rng.choice(['list', 'tuple']), [num() for _ in range(rng.choice([1, 2, 12]))]],
                lambda: [rng.choice(['list', 'tuple']), [flt() for _ in range(rng.choice([1, 2, 5]))]],
                lambda: rng.choice([['date', 730000 + sd], ['frac', sd, 7]]),
                lambda: ['list', [['str', rng.choice(['abc', 'xyz', 'q r'])] for _ in range(rng.randint(1, 4))]],
                ]
        if rng.random() < .15:
            opts = [lambda: ['quantity', sd, rng.randint(1, 9), rng.choice(['m', 'km / s', 'kg m2 / s2', ''])],
                    lambda: ['quantityx', rng.choice(['scalar', '2d']), sd, rng.choice(['m', 'Jy'])],
                    lambda: ['angle', rng.choice([[float(sd % 360)], [1., 2.5], [0.]]), rng.choice(['deg', 'rad'])],
                    lambda: ['time', [2450000.5 + sd % 999, 2451000.25], 'jd', rng.choice(['utc', 'tai'])],
                    lambda: ['time', ['1999-01-01T00:00:00.123', '2010-01-0%dT00:00:00.000' % (1 + sd % 9)], 'isot', 'utc'],
                    lambda: ['sky', [10., float(sd % 360)], [-20., float(sd % 90)]],
                    lambda: ['table', rng.randint(1, 6), sd],
                    lambda: ['tablex', rng.choice(['meta', 'bytes', '2d']), rng.randint(1, 4), sd]]
            if self.v == 'v3':
                opts += [lambda: ['const', rng.choice(['G', 'c', 'h', 'M_sun'])],
                         lambda: ['dtype', rng.choice(['float64', '>i4', '|S5', 'bool', 'complex64'])]]
            return rng.choice(opts)()
        if self.v == 'v3':
            opts += [lambda: ['none'], lambda: ['bool', rng.random() < .5], lambda: ['complex', (1.5).hex(), (-2.).hex()],
                     lambda: ['nps', rng.choice(['int8', 'float32', 'uint64', 'complex64']), sd],
                     lambda: ['set', [['int', str(i)] for i in range(rng.randint(1, 4))]],
                     lambda: ['set', [['str', w] for w in rng.sample(['a', 'bb', 'ü', 'x/y'], 2)]],
                     lambda: ['set', [['int', '1'], ['str', 'ü']]],
                     lambda: ['list', [['bytes', rng.choice(['61', 'ff', '6263'])] for _ in range(rng.randint(1, 3))]],
                     lambda: ['list', [['str', word()] for _ in range(rng.randint(1, 3))]]]
        else:
            opts += [lambda: ['strarr', [rng.choice(['a', 'bb', 'ccc']) for _ in range(4)], rng.choice([[4], [2, 2]])]]
        return rng.choice(opts)()

    def key(self):
        rng = self.rng
        words = ['a', 'bb', 'data', 'data_0', 'ü', 'sp ace', 'a.b'] + ([] if self.v == 'v3' else ['x/y', '/'])
        return rng.choice([lambda: ['str', rng.choice(words)], lambda: ['str', 'k%d' % rng.randint(0, 99)],
                           lambda: ['int', str(rng.randint(-3, 30))], lambda: ['float', rng.choice([0.5, -1.25, 1e300]).hex()],
                           lambda: ['bool', rng.random() < .5],
                           lambda: ['tuple', [['int', '1'], ['str', 'z']]], lambda: ['tuple', [['int', str(rng.randint(0, 9))]]],
                           lambda: ['complex', (1.5).hex(), (2.).hex()]] + ([] if self.v == 'v3' else [lambda: ['none']]))()

    def node(self, depth=0):
        import objects
        rng = self.rng
        self.budget -= 1
        if depth > 3 or self.budget <= 0 or rng.random() < .3:
            r = self.leaf()
        elif rng.random() < .6:
            n = rng.choice([0, 1, 2, 3, 11])
            r = [rng.choice(['list', 'tuple', 'list']), [self.node(depth + 1) if i < 4 else self.leaf() for i in range(n)]]
        else:
            items, seen = [], set()
            for _ in range(rng.choice([0, 1, 2, 4])):
                k = self.key()
                kv = objects.build(k)
                if kv in seen or str(kv) in seen:
                    continue
                seen |= {kv, str(kv)}
                items.append([k, self.node(depth + 1)])
            r = [rng.choice(['dict', 'dict', 'odict']) if self.v == 'v4' else 'dict', items]
        if depth and self.gone and r[0] in ('arr', 'list', 'dict', 'int', 'odict', 'float') and rng.random() < self.gone:
            r = ['gone', rng.choice(['module', 'name']), r]
        return r


# ---------------------------------------------------------------------- judging

class Doc:
    """what a generated legacy file holds"""

    def __init__(self, version, rec):
        self.version, self.rec = version, rec

    @property
    def degraded(self):
        return self.version == 'v4' and "['gone'" in repr(self.rec)


def compare(doc, got):
    import objects
    try:
        walk(doc.version, doc.rec, got, 'obj')
    except objects.Diff as d:
        return str(d)
    return None


def walk(version, rec, b, path):
    import objects
    k = rec[0]
    if k == 'gone':
        if version == 'v4':
            return recovered(rec[2], b, path)
        return walk(version, rec[2], b, path)
    if k in ('list', 'tuple') and any(x[0] in ('gone', 'list', 'tuple', 'dict', 'odict', 'const') for x in rec[1]):
        if type(b).__name__ != k:
            raise objects.Diff('%s: %s became %s %s' % (path, k, type(b).__name__, objects._short(b)))
        if len(rec[1]) != len(b):
            raise objects.Diff('%s: length %d became %d' % (path, len(rec[1]), len(b)))
        for i, (x, y) in enumerate(zip(rec[1], b)):
            walk(version, x, y, '%s[%d]' % (path, i))
        return
    if k in ('dict', 'odict'):
        want = dict if k == 'dict' or version == 'v3' else collections.OrderedDict
        if type(b) is not want or len(b) != len(rec[1]):
            raise objects.Diff('%s: %s of %d became %s' % (path, k, len(rec[1]), objects._short(b)))
        keys = [objects.build(kx) for kx, vx in rec[1]]
        if version == 'v4' and keys != list(b):
            raise objects.Diff('%s: keys %r became %r' % (path, keys, list(b)))
        for key, (kx, vx) in zip(keys, rec[1]):
            hit = [x for x in b if x == key]
            if not hit or type(hit[0]) is not type(key):
                raise objects.Diff('%s: key %r missing or of another type in %s' % (path, key, objects._short(b)))
            walk(version, vx, b[key], '%s[%r]' % (path, key))
        return
    want = objects.build(rec)
    if k == 'const':
        import astropy.constants as c
        import astropy.units as u
        if type(b) is not c.Constant or (b.reference, b.system) != (want.reference, want.system) or u.Unit(b.unit) != want.unit:
            raise objects.Diff('%s: %r became %r' % (path, want, b))
        return objects.Comparer(False).astro(want, b, path)
    objects.Comparer(False).cmp(want, b, path)


def recovered(rec, b, path):
    """data of a type which does not exist any more: content and attributes, marked as recovered"""
    import hickle.lookup as L
    import objects
    k = rec[0]
    if not isinstance(b, L.AttemptRecoverCustom):
        raise objects.Diff('%s: %s of a missing type came back as %s' % (path, k, type(b).__name__))
    base = b.attrs.get('base_type')
    base = base.decode() if isinstance(base, bytes) else base
    want = {'arr': 'ndarray', 'odict': 'dict'}.get(k, k)
    if base != want:
        raise objects.Diff('%s: recovered base_type %r, stored %r' % (path, base, want))
    if k == 'arr' or k in ('int', 'float') or (k == 'list' and not isinstance(b, dict)):
        if not isinstance(b, np.ndarray):
            raise objects.Diff('%s: dataset came back as %s' % (path, type(b).__name__))
        v = objects.build(rec)
        if k == 'list' and v and isinstance(v[0], str):
            v = [x.encode() for x in v]
        v = np.array(v)
        if v.shape != b.shape or v.tobytes() != np.asarray(b).astype(v.dtype).tobytes():
            raise objects.Diff('%s: recovered %s, stored %s' % (path, objects._short(np.asarray(b)), objects._short(v)))
        if k == 'arr' and _s(b.attrs.get('np_dtype', b'')) != str(v.dtype).encode():
            raise objects.Diff('%s: recovered attributes %s' % (path, dict(b.attrs)))
        return
    if not isinstance(b, dict):
        raise objects.Diff('%s: group came back as %s' % (path, type(b).__name__))
    if k == 'list':
        items = [('data_%d' % i, x) for i, x in enumerate(rec[1])]
    else:
        items = []
        for kx, vx in rec[1]:
            key = objects.build(kx)
            items.append(((repr(key) if isinstance(key, str) else str(key)).replace('/', '\\'), vx))
    if len(b) < len(items) or not all(n in b for n, x in items):
        raise objects.Diff('%s: members %s recovered as %s' % (path, [n for n, x in items], sorted(b)))
    for n, x in items:
        got = b[n]
        if isinstance(got, tuple) and len(got) == 2 and isinstance(got[1], dict):
            got = got[0]
        walk('v4', x, got, '%s.%s' % (path, n))
