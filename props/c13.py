"""C13: primitive fields accept and convert exactly as documented."""
import oblate
from oblate import fields
from common import *

BOUNDS = ('every value of the listed kinds: arbitrary (unbounded) integers, floats with quarter values up to 2^40 and the special floats, '
          'strings (up to 8 characters of the parsed or clearly unparsable forms where int()/float() is applied, unbounded otherwise), '
          'containers of up to 1 element, opaque objects, subclasses, objects whose conversions raise; integers up to 2^60 in magnitude, or too large for a float, where float() is applied')
ASSUMPTIONS = ['int()/float() of strings outside the modelled forms (whitespace, underscores, exponents, nan/inf) are CPython semantics and outside the bound, '
               'except for the listed concrete ones']
ANYV = Spec(('none', 'bool', 'int', 'float', 'fspecial', 'str', 'bytes', 'list', 'tuple', 'set', 'dict', 'obj', 'unconv', 'intsub', 'strsub', 'floatsub'), maxlen=1)
TYPES = {'string': str, 'integer': int, 'float': float}


class Unstr:
    """An object that cannot be converted to anything."""
    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        raise self.exc('no text')

    def __int__(self):
        raise self.exc('no int')

    def __float__(self):
        raise self.exc('no float')

    def __repr__(self):
        return '<Unstr>'


class Boom(Exception):
    pass


class Intable:
    def __int__(self):
        return 7

    def __float__(self):
        return 7.5

    def __str__(self):
        return 'seven'


SPECIAL = (10 ** 400, -10 ** 400, '1e400', ' 12 ', '1_000', 'nan', '-inf', '١', '', '+5', '0x10', '1' * 5000, b'12', True, False,
           Unstr(ValueError), Unstr(TypeError), Unstr(Boom), Unstr(KeyError), Intable(), int, 3 + 4j, ...)


def make_field(kind, **kw):
    base = {'string': fields.String, 'integer': fields.Integer, 'float': fields.Float}[kind]

    class Coded(base):
        def format_error(self, code, context):
            return 'code:%s' % (code,)
    return Coded(**kw)


def expected(H, kind, strict, none, v):
    """('ok', value) or ('error', code)."""
    if v is None:
        return ('ok', None) if none else ('error', 'field.none_disallowed')
    t = TYPES[kind]
    if isinstance(v, t):
        return 'ok', v
    if strict:
        return 'error', kind + '.invalid_datatype'
    try:
        r = str(v) if kind == 'string' else int(v) if kind == 'integer' else float(v)
    except Exception:
        return 'error', kind + '.coercion_failed'
    return 'ok', r


def same_result(H, a, b):
    if isinstance(a, float) and isinstance(b, float):
        return H.Or(H.same(a, b), H.And(a != a, b != b))
    return H.same(a, b)


def run(H, cls, v, kind, strict, none, old):
    exp = expected(H, kind, strict, none, v)
    op = H.choice('op', ('load', 'update', 'set'))
    if op == 'load':
        ok, r = H.attempt(cls, {'k': v})
        s = r
    else:
        s = cls({'k': old})
        ok, r = H.attempt(s.update, {'k': v}) if op == 'update' else H.attempt(setattr, s, 'a', v)
    if exp[0] == 'ok':
        H.check(ok, 'the value is accepted')
        H.check(same_result(H, s.a, exp[1]), 'the stored value is the value itself or its conversion')
        if isinstance(v, TYPES[kind]):
            H.check(s.a is v, 'instances are stored unchanged')
            H.cover('instance')
        elif v is not None:
            H.check(type(s.a) is TYPES[kind], 'a converted value has the type of the field')
            H.cover('converted')
        H.cover('accepted ' + op)
    else:
        H.check(not ok, 'the value is rejected')
        H.check(isinstance(r, oblate.ValidationError), 'a rejection is a validation error')
        H.check(len(r.errors) == 1 and r.errors[0].key == 'k' and r.errors[0].message == 'code:' + exp[1], 'exactly the documented error')
        if op != 'load':
            H.check(s.a is old, 'the previous value is kept')
        H.cover('rejected ' + op)


def matrix(H):
    kind = H.choice('field', ('string', 'integer', 'float'))
    strict = H.flip('strict')
    none = H.flip('none')

    class S(oblate.Schema):
        a = make_field(kind, strict=strict, none=none, load_key='k') if H.flip('explicit') or not strict else make_field(kind, none=none, load_key='k')
    run(H, S, H.value('v', ANYV), kind, strict, none, {'string': 'old', 'integer': 5, 'float': 2.5}[kind])


def special(H):
    """Concrete values of unusual behaviour."""
    kind = H.choice('field', ('string', 'integer', 'float'))
    strict = H.flip('strict')
    v = SPECIAL[H.choice('value', tuple(range(len(SPECIAL))))]

    class S(oblate.Schema):
        a = make_field(kind, strict=strict, load_key='k')
    run(H, S, v, kind, strict, False, {'string': 'old', 'integer': 5, 'float': 2.5}[kind])


def stock(H):
    """The classes as shipped, default messages, several fields at once."""
    st = H.flip('strict')

    class S(oblate.Schema):
        s = fields.String(strict=st)
        i = fields.Integer(strict=st)
        f = fields.Float(strict=st)
    spec = Spec(('bool', 'int', 'float', 'str', 'obj', 'list'), maxlen=1)
    vs = {'s': H.value('s', spec), 'i': H.value('i', spec), 'f': H.value('f', spec)}
    exp = {n: expected(H, k, st, False, vs[n]) for n, k in (('s', 'string'), ('i', 'integer'), ('f', 'float'))}
    bad = [n for n in vs if exp[n][0] != 'ok']
    ok, r = H.attempt(S, vs)
    if not bad:
        H.check(ok, 'all values are accepted')
        H.check(H.And(*[same_result(H, getattr(r, n), exp[n][1]) for n in vs]), 'every field holds its own value')
        H.cover('accepted')
    else:
        H.check(not ok and isinstance(r, oblate.ValidationError), 'validation error')
        raw = r.raw()
        H.check(sorted(raw) == sorted(bad) and all(len(m) == 1 for m in raw.values()), 'one error for each bad field')
        H.check(str(r) != '', 'the error has a text')
        H.cover('rejected')


def direct(H):
    """value_load is given another value than the raw one by a subclass."""
    kind = H.choice('field', ('string', 'integer', 'float'))
    strict = H.flip('strict')
    base = {'string': fields.String, 'integer': fields.Integer, 'float': fields.Float}[kind]
    w = H.value('w', Spec(('int', 'str', 'float', 'obj')))

    class Changed(base):
        def value_load(self, value, context):
            return super().value_load(w, context)

        def format_error(self, code, context):
            return 'code:%s' % (code,)

    class S(oblate.Schema):
        a = Changed(strict=strict)
    ok, r = H.attempt(S, {'a': H.value('v', Spec(('int', 'str')))})
    exp = expected(H, kind, strict, False, w)
    if exp[0] == 'ok':
        H.check(ok, 'the value given to the deserializer is accepted')
        H.check(same_result(H, r.a, exp[1]), 'the value given to the deserializer is converted')
        H.cover('accepted')
    else:
        H.check(not ok and isinstance(r, oblate.ValidationError), 'the value given to the deserializer is rejected')
        H.check(r.errors[0].message == 'code:' + exp[1], 'documented error')
        H.cover('rejected')


def dumping(H):
    """Dumping emits the stored value unchanged."""
    kind = H.choice('field', ('string', 'integer', 'float'))
    strict = H.flip('strict')

    class S(oblate.Schema):
        a = make_field(kind, strict=strict, none=True)
    v = H.value('v', Spec(('none', 'int', 'str', 'float', 'intsub', 'strsub', 'floatsub', 'bool', 'unconv')))
    ok, s = H.attempt(S, {'a': v})
    if ok:
        before = s.a
        H.check(s.dump()['a'] is before, 'the stored value is dumped as it is')
        H.check(s.a is before, 'dumping does not change it')
        H.cover('dumped')


def unprintable(H):
    """Values without a text or representation, with the default messages: a validation error, never another exception."""
    kind = H.choice('field', ('string', 'integer', 'float', 'boolean'))
    base = {'string': fields.String, 'integer': fields.Integer, 'float': fields.Float, 'boolean': fields.Boolean}[kind]
    strict = H.flip('strict')

    class S(oblate.Schema):
        a = base(strict=strict, required=False)
    v = UNPRINTABLE[H.choice('value', tuple(range(len(UNPRINTABLE))))]
    how = H.choice('how', ('load', 'update', 'set'))
    s = S({})
    ok, r = H.attempt(S, {'a': v}) if how == 'load' else H.attempt(s.update, {'a': v}) if how == 'update' else H.attempt(setattr, s, 'a', v)
    good = kind == 'integer' and isinstance(v, int) or not strict and isinstance(v, Halfprintable) and kind in ('string', 'boolean')
    H.check(ok == good, 'accepted exactly when it is or converts to the type')
    if good:
        got = (r if how == 'load' else s).a
        H.check(got is v if kind == 'integer' else got == ('yes' if kind == 'string' else True), 'stored or converted')
        H.cover('accepted')
    else:
        H.check(isinstance(r, oblate.ValidationError), 'a validation error, never another exception')
        raw = r.raw()
        H.check(list(raw) == ['a'] and len(raw['a']) == 1 and isinstance(raw['a'][0], str) and raw['a'][0] and raw['a'][0] in str(r), 'one error with a text')
        H.cover('rejected')


unprintable.covers = ('accepted', 'rejected')
matrix.covers = special.covers = tuple(a + b for a in ('accepted ', 'rejected ') for b in ('load', 'update', 'set')) + ('instance', 'converted')
stock.covers = direct.covers = ('accepted', 'rejected')
dumping.covers = ('dumped',)
SCENARIOS = dict(matrix=matrix, special=special, stock=stock, direct=direct, unprintable=unprintable, dumping=dumping)
