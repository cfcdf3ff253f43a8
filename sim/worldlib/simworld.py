"""User-side classes that live in the simulated world (not part of hickle)."""


class Plain:
    """no loader anywhere: hickle falls back to a pickle string"""

    def __init__(self, payload):
        self.payload = payload

    def __eq__(self, other):
        return type(other) is Plain and other.payload == self.payload

    __hash__ = object.__hash__


class Rich:
    """has a custom loader in hickle_loaders/load_simworld.py (option 'custom'): stored as group"""

    def __init__(self, name, items):
        self.name = name
        self.items = items


class Flat:
    """has a custom loader storing it as one dataset"""

    def __init__(self, values, tag):
        self.values = values
        self.tag = tag


class Always:
    """has a loader registered without option: always used"""

    def __init__(self, items):
        self.items = items


class Bomb:
    """picklable except that the armed simulator makes pickling raise"""
    armed = None  # set to a callable by the simulator

    def __init__(self, tag):
        self.tag = tag

    def __reduce__(self):
        if Bomb.armed is not None:
            Bomb.armed('dump', self.tag)
        return (_rebuild_bomb, (self.tag,))


def _rebuild_bomb(tag):
    if Bomb.armed is not None:
        Bomb.armed('load', tag)
    return Bomb(tag)
