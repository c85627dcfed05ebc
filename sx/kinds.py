"""Kinds of values a lazily typed symbolic value can take (shared by the symbolic and the plain side)."""
import collections
import collections.abc


class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


class ListSub(list):
    pass


class SetSub(set):
    pass


class DictSub(dict):
    pass


class TupleSub(tuple):
    pass


class UserMapping(collections.abc.Mapping):
    """A mapping that is not a dict."""
    def __init__(self, items=()):
        self._d = dict(items)

    def __getitem__(self, key):
        return self._d[key]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class Obj:
    """An opaque object without any special behaviour."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<Obj %s>' % self.name


class Unconvertible:
    """An object whose conversions raise unusual exceptions."""
    def __init__(self, name):
        self.name = name

    def __int__(self):
        raise ZeroDivisionError('int')

    def __float__(self):
        raise ZeroDivisionError('float')

    def __repr__(self):
        return '<Unconvertible>'


FSPECIAL = [float('inf'), float('-inf'), float('nan')]

# kind -> (class, sample instance)
KINDS = {
    'none': (type(None), None),
    'bool': (bool, True),
    'int': (int, 1),
    'float': (float, 1.0),
    'fspecial': (float, float('inf')),
    'str': (str, 'x'),
    'bytes': (bytes, b'x'),
    'list': (list, []),
    'tuple': (tuple, ()),
    'set': (set, set()),
    'frozenset': (frozenset, frozenset()),
    'dict': (dict, {}),
    'mapping': (UserMapping, UserMapping()),
    'obj': (Obj, Obj('sample')),
    'unconv': (Unconvertible, Unconvertible('sample')),
    'intsub': (IntSub, IntSub(1)),
    'strsub': (StrSub, StrSub('x')),
    'floatsub': (FloatSub, FloatSub(1.0)),
    'listsub': (ListSub, ListSub()),
    'tuplesub': (TupleSub, TupleSub()),
    'setsub': (SetSub, SetSub()),
    'dictsub': (DictSub, DictSub()),
}
NAMES = list(KINDS)
IDX = {k: i for i, k in enumerate(NAMES)}
INTISH = ('int', 'intsub')
FLOATISH = ('float', 'floatsub')
STRISH = ('str', 'strsub')
SEQISH = ('list', 'tuple', 'listsub', 'tuplesub')
SETISH = ('set', 'frozenset', 'setsub')
DICTISH = ('dict', 'dictsub', 'mapping')
CONTAINERS = SEQISH + SETISH + DICTISH
HASHABLE = ('none', 'bool', 'int', 'float', 'str', 'bytes', 'obj', 'intsub', 'strsub', 'floatsub')
SCALARS = ('none', 'bool', 'int', 'float', 'str', 'obj')
ALL = ('none', 'bool', 'int', 'float', 'str', 'list', 'tuple', 'set', 'dict', 'obj')


class Spec:
    """Which kinds a value may have, and the same for its elements."""
    def __init__(self, kinds=ALL, elem=None, key=None, maxlen=2, strings=None, ints=None, floats=None, minlen=0):
        self.kinds = tuple(kinds)
        self.maxlen = maxlen
        self.minlen = minlen
        self.strings = strings      # optional finite list of string values
        self.ints = ints            # optional (lo, hi)
        self.floats = floats        # optional (lo, hi) in quarters
        scalars = tuple(k for k in self.kinds if k not in CONTAINERS) or SCALARS
        self.elem = elem if elem is not None else None
        self.key = key
        if elem is None and any(k in CONTAINERS for k in self.kinds):
            self.elem = Spec(scalars, strings=strings, ints=ints, floats=floats)
        if key is None and any(k in DICTISH for k in self.kinds):
            self.key = Spec(tuple(k for k in scalars if k in HASHABLE) or ('str',), strings=strings, ints=ints, floats=floats)

    def set_elem(self):
        """Element spec of sets: hashable kinds only."""
        ks = tuple(k for k in self.elem.kinds if k in HASHABLE)
        e = self.elem
        return Spec(ks or ('int',), strings=e.strings, ints=e.ints, floats=e.floats)


def norm(x, depth=0):
    """Canonical JSON-able form of observed data."""
    if depth > 12:
        return '...'
    t = type(x)
    if x is None or t is bool:
        return x
    if t is int or t is str:
        return x
    if t is float:
        return ['float', repr(x)]
    if t in (list, ListSub, tuple, TupleSub):
        return [t.__name__] + [norm(i, depth + 1) for i in x]
    if isinstance(x, (set, frozenset)):
        return [t.__name__] + sorted((norm(i, depth + 1) for i in x), key=repr)
    if isinstance(x, collections.abc.Mapping):
        return [t.__name__] + sorted(([norm(k, depth + 1), norm(v, depth + 1)] for k, v in x.items()), key=repr)
    if isinstance(x, int):
        return [t.__name__, int(x)]
    if isinstance(x, float):
        return [t.__name__, repr(float(x))]
    if isinstance(x, str):
        return [t.__name__, str(x)]
    if isinstance(x, bytes):
        return ['bytes', repr(x)]
    if isinstance(x, Obj):
        return ['obj', x.name]
    if isinstance(x, type):
        return ['type', x.__name__]
    return ['?', t.__name__]
