"""Custom hickle loader for the simulated user's classes (public loader protocol)."""
import numpy as np
from hickle.helpers import PyContainer
import simworld


def dump_rich(py_obj, h_group, name, **kwargs):
    g = h_group.create_group(name)
    g.attrs['rich_name'] = py_obj.name
    return g, (('items', py_obj.items, {}, kwargs),)


class RichContainer(PyContainer):
    def append(self, name, item, h5_attrs):
        self._content.append(item)

    def convert(self):
        return self.object_type(self._h5_attrs['rich_name'], self._content[0])


def dump_flat(py_obj, h_group, name, **kwargs):
    d = h_group.create_dataset(name, data=np.asarray(py_obj.values), **kwargs)
    d.attrs['tag'] = py_obj.tag
    return d, ()


def load_flat(h_node, base_type, py_obj_type):
    return py_obj_type(h_node[()], h_node.attrs['tag'])


def dump_always(py_obj, h_group, name, **kwargs):
    g = h_group.create_group(name)
    g.attrs['n'] = len(py_obj.items)
    g.attrs['vec'] = np.arange(len(py_obj.items) + 1)
    return g, (('item%d' % i, x, {'i': i, 'item_index': i + 1, 'note': 'n\u00fc%d' % i}, kwargs) for i, x in enumerate(py_obj.items))


class AlwaysContainer(PyContainer):
    def append(self, name, item, h5_attrs):
        self._content.append((int(h5_attrs['i']), item))

    def convert(self):
        items = [x for _, x in sorted(self._content, key=lambda p: p[0])]
        if len(items) != int(self._h5_attrs['n']):
            raise ValueError('incomplete Always')
        return self.object_type(items)


class_register = [
    [simworld.Rich, b'simrich', dump_rich, None, RichContainer, True, 'custom'],
    [simworld.Flat, b'simflat', dump_flat, load_flat, None, True, 'custom'],
    [simworld.Always, b'simalways', dump_always, None, AlwaysContainer, True],
]
exclude_register = []
