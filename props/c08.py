"""C08: dumping and reloading reproduces the schema."""
import typing
import oblate
from oblate import fields, validate
from common import *

BOUNDS = ('one scenario per group of built-in fields; every option listed in the scenario; input values of any listed kind (arbitrary '
          'integers, strings, quarter-valued floats), containers of up to 2 (thorough: 3) elements, nesting depth up to 3')
ASSUMPTIONS = ['load and dump keys agree (data_key), as the property says', 'NaN is left out (it is not equal to itself)']
SC = ('none', 'bool', 'int', 'float', 'str')


def roundtrip(H, s, names):
    """s -> dump -> load -> dump."""
    cls = type(s)
    before = state_of(s, names)
    ok, d = H.attempt(s.dump)
    H.check(ok, 'a constructed schema dumps')
    ok, s2 = H.attempt(cls, d)
    H.check(ok, 'the dump loads again')
    after = state_of(s2, names)
    for n in names:
        same_unset = (before[n] is UNSET) == (after[n] is UNSET)
        H.check(same_unset, 'the same fields are set')
        if before[n] is not UNSET:
            H.check(equal(H, before[n], after[n]), 'equal values')
    ok, d2 = H.attempt(s2.dump)
    H.check(ok, 'the reloaded schema dumps')
    H.check(sorted(d) == sorted(d2), 'the same keys')
    H.check(H.And(*[H.eq(d[k], d2[k]) for k in d]), 'the dump of the reloaded schema equals the first dump')
    H.out('dump', d)
    H.cover('round trip')


def equal(H, a, b):
    if isinstance(a, oblate.Schema):
        if type(a) is not type(b):
            return False
        fs = list(type(a).__fields__)
        x, y = state_of(a, fs), state_of(b, fs)
        return H.And(*[(x[f] is UNSET) == (y[f] is UNSET) and (x[f] is UNSET or equal(H, x[f], y[f])) for f in fs])
    return H.eq(a, b)


def one_field(H, make, spec, extra=()):
    """A schema with the field under test (any flags) next to a plain one."""
    mode = H.choice('flags', ('plain', 'none', 'default', 'optional', 'key'))
    kw = {'plain': {}, 'none': dict(none=True), 'default': dict(default=None, none=True), 'optional': dict(required=False, none=True),
          'key': dict(data_key='b')}[mode]
    cls = type(oblate.Schema)('S', (oblate.Schema,), {'a': make(**kw), 'c': fields.Any(none=True, required=False), '__module__': __name__})
    key = 'b' if mode == 'key' else 'a'
    data = {}
    if mode in ('plain', 'none', 'key') or H.flip('given'):
        data[key] = H.value('v', spec)
    if H.flip('c.given'):
        data['c'] = H.value('c', Spec(SC))
    ok, s = H.attempt(cls, data)
    if not ok:
        H.cover('refused')
        return
    hist = H.choice('history', ('none', 'assign', 'update'))
    if hist != 'none':
        v = H.value('v2', spec)
        H.attempt(setattr, s, 'a', v) if hist == 'assign' else H.attempt(s.update, {key: v})
    roundtrip(H, s, ('a', 'c'))


def primitives(H):
    mk, spec = H.choice('field', (
        (lambda **k: fields.String(**k), Spec(SC + ('obj',))), (lambda **k: fields.String(strict=False, **k), Spec(SC)),
        (lambda **k: fields.Integer(**k), Spec(SC)), (lambda **k: fields.Integer(strict=False, **k), Spec(SC)),
        (lambda **k: fields.Float(**k), Spec(SC)), (lambda **k: fields.Float(strict=False, **k), Spec(SC)),
        (lambda **k: fields.Boolean(**k), Spec(SC)), (lambda **k: fields.Boolean(strict=False, **k), Spec(SC, strings=('true', 'No', 'x', '1'))),
        (lambda **k: fields.Boolean(strict=False, true_values=['on', 'False'], false_values=['off', 'True'], **k),
         Spec(('none', 'bool', 'str'), strings=('on', 'off', 'True')))))
    one_field(H, mk, spec)


class TD(typing.TypedDict):
    x: int
    y: typing.Optional[str]


class TDp(typing.TypedDict, total=False):
    x: int
    y: str


def typings(H):
    mk, spec = H.choice('field', (
        (lambda **k: fields.Any(**k), Spec(SC + ('obj', 'list'), maxlen=1)),
        (lambda **k: fields.Literal(1, 'a', False, **k), Spec(SC)),
        (lambda **k: fields.Union(int, str, **k), Spec(SC)),
        (lambda **k: fields.TypeExpr(typing.Optional[int], **k), Spec(SC)),
        (lambda **k: fields.TypeExpr(typing.Union[typing.List[int], str], **k), Spec(SC + ('list',), maxlen=1))))
    one_field(H, mk, spec)


def structures(H):
    el = Spec(('int', 'str', 'none'))
    n = H.bound(1, 2)
    mk, spec = H.choice('field', (
        (lambda **k: fields.List(**k), Spec(('list', 'tuple', 'none'), elem=el, maxlen=n)),
        (lambda **k: fields.List(int, **k), Spec(('list', 'none'), elem=el, maxlen=n)),
        (lambda **k: fields.Set(**k), Spec(('set', 'list', 'none'), elem=el, maxlen=n)),
        (lambda **k: fields.Set(str, **k), Spec(('set', 'frozenset', 'none'), elem=el, maxlen=n)),
        (lambda **k: fields.Dict(**k), Spec(('dict', 'none'), elem=el, key=el, maxlen=n)),
        (lambda **k: fields.Dict(str, typing.Optional[int], **k), Spec(('dict', 'mapping', 'none'), elem=el, key=Spec(('str', 'int')), maxlen=n))))
    one_field(H, mk, spec)


def typed_dicts(H):
    t = H.choice('td', (TD, TDp))
    el = Spec(('int', 'str', 'none'))

    class S(oblate.Schema):
        a = fields.TypedDict(t, none=True)
        b = fields.TypedDict(TDp, required=False)
    v = {k: H.value('v.' + k, el) for k in ('x', 'y', 'z') if H.flip('has.' + k)}
    data = {'a': v if H.flip('given') else None}
    if H.flip('b'):
        data['b'] = {'x': H.value('bx', el)}
    ok, s = H.attempt(S, data)
    if ok:
        roundtrip(H, s, ('a', 'b'))
    else:
        H.cover('refused')


def nested(H):
    """Nested schemas, given as mappings or instances, None, optional, two levels deep."""
    class Leaf(oblate.Schema):
        x = fields.Integer(none=True, strict=False, data_key='ex')
        y = fields.Boolean(required=False)

    class Mid(oblate.Schema):
        leaf = fields.Object(Leaf, none=True)
        s = fields.String(default='d')

    class Top(oblate.Schema):
        mid = fields.Object(Mid, required=False)
        leaf = fields.Object(Leaf, none=True, default=None, data_key='l')
        z = fields.Any(none=True, required=False)
    sc = Spec(('none', 'int', 'str', 'bool'))

    def leaf(n):
        d = {'ex': H.value(n + '.x', sc)}
        if H.flip(n + '.hasy'):
            d['y'] = H.value(n + '.y', Spec(('bool', 'int')))
        how = H.choice(n + '.how', ('mapping', 'instance', 'none'))
        if how == 'none':
            return None
        if how == 'instance':
            ok, o = H.attempt(Leaf, d)
            return o if ok else d
        return d
    data = {}
    if H.flip('mid'):
        data['mid'] = {'leaf': leaf('m')}
        if H.flip('s'):
            data['mid']['s'] = H.value('s', Spec(('str', 'none')))
    if H.flip('leaf') if 'mid' not in data else H.thorough and H.flip('leaf'):
        data['l'] = leaf('t')
    if H.flip('z'):
        data['z'] = 0
    ok, top = H.attempt(Top, data)
    if not ok:
        H.cover('refused')
        return
    hist = H.choice('history', ('none', 'nested assign', 'update'))
    if hist == 'nested assign' and 'mid' in data and top.mid.leaf is not None:
        H.attempt(setattr, top.mid.leaf, 'x', H.value('new', sc))
    elif hist == 'update':
        H.attempt(top.update, {'mid': {'leaf': None}})
    roundtrip(H, top, ('mid', 'leaf', 'z'))


def many(H):
    """All kinds of fields together with validators."""
    class In(oblate.Schema):
        q = fields.List(int)

    class S(oblate.Schema):
        i = fields.Integer(validators=[validate.Range(-5, 5)], data_key='I')
        s = fields.String(strict=False, none=True, data_key='i')
        b = fields.Boolean(strict=False, default=False)
        f = fields.Float(strict=False, none=True, required=False)
        l = fields.List(typing.Union[int, None], default=[])
        o = fields.Object(In, required=False)
    data = {'I': H.value('i', Spec(('int', 'bool'))), 'i': H.value('s', Spec(('none', 'int', 'str')))}
    if H.flip('b'):
        data['b'] = H.value('b', Spec(('bool', 'int'), ints=(-1, 2)))
    if H.flip('f'):
        data['f'] = H.value('f', Spec(('none', 'int', 'float'), ints=(-9, 9)))
    if H.flip('l'):
        data['l'] = [H.value('l', Spec(('none', 'int', 'str')))]
    if H.flip('o'):
        data['o'] = {'q': [H.value('q', Spec(('int', 'str')))]}
    ok, s = H.attempt(S, data)
    if ok:
        roundtrip(H, s, ('i', 's', 'b', 'f', 'l', 'o'))
    else:
        H.cover('refused')


for f in (primitives, typings, structures, typed_dicts, nested, many):
    f.covers = ('round trip', 'refused')
SCENARIOS = dict(primitives=primitives, typings=typings, structures=structures, typed_dicts=typed_dicts, nested=nested, many=many)
