"""User-side subclasses of builtin types; always importable, unlike simworld."""
import collections
import enum


class SubList(list):
    pass


class SubTuple(tuple):
    pass


class SubDict(dict):
    pass


class SubSet(set):
    pass


class SubStr(str):
    pass


class SubBytes(bytes):
    pass


class SubInt(int):
    pass


class SubFloat(float):
    pass


Point = collections.namedtuple('Point', 'x y')


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2**40
