"""Concrete side: builds values from a model (used for replay and for evaluating observations)."""
from . import kinds as K


def build(name, spec, look):
    """Concrete value for the symbolic value `name`; look(varname) gives the model value or None."""
    k = look(name + '#k')
    kind = K.NAMES[k] if k is not None else spec.kinds[0]
    if kind not in spec.kinds:
        kind = spec.kinds[0]
    if kind == 'none':
        return None
    if kind == 'bool':
        return bool(look(name + '#b'))
    if kind in K.INTISH:
        v = look(name + '#i')
        if v is None:
            v = spec.ints[0] if spec.ints else 0
        return K.KINDS[kind][0](v)
    if kind in K.FLOATISH:
        v = look(name + '#q')
        if v is None:
            v = spec.floats[0] if spec.floats else 0
        return K.KINDS[kind][0](v / 4)
    if kind in K.STRISH:
        v = look(name + '#s')
        if v is None:
            v = spec.strings[0] if spec.strings else ''
        return K.KINDS[kind][0](v)
    if kind == 'bytes':
        return b'ab'
    if kind == 'obj':
        return K.Obj(name)
    if kind == 'unconv':
        return K.Unconvertible(name)
    if kind == 'fspecial':
        return K.FSPECIAL[look(name + '#f') or 0]
    n = look(name + '#n')
    if n is None:
        n = spec.minlen
    cls = K.KINDS[kind][0]
    if kind in K.SEQISH:
        return cls([build('%s.%d' % (name, i), spec.elem, look) for i in range(n)])
    if kind in K.SETISH:
        es = spec.set_elem()
        return cls([build('%s.%d' % (name, i), es, look) for i in range(n)])
    return cls([(build('%s.k%d' % (name, i), spec.key, look), build('%s.%d' % (name, i), spec.elem, look)) for i in range(n)])
