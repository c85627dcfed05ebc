"""C20: Exclude and Or combine values and validators as documented."""
import oblate
from oblate import fields, validate
from common import *

BOUNDS = ('values and up to 3 (thorough: 4) excluded values of every listed kind (arbitrary integers, strings, quarter floats, lists of up to 1 element); '
          'up to 3 (thorough: 4) validators under Or with every outcome, nested Or of depth 2, validators as functions and classes; 9 values or validators with the interesting one at every position')
ASSUMPTIONS = ['values compare by ordinary equality (NaN left out)']
V = Spec(('none', 'bool', 'int', 'float', 'str', 'list', 'obj'), elem=Spec(('int', 'str')), maxlen=1)


def judge(H, v, value):
    ok, r = H.attempt(v, None, value, None)
    if not ok:
        H.check(isinstance(r, ValueError), 'rejection is a ValueError')
        H.check(H.Not(H.eq(H.text(r), '')), 'rejection has a message')
    return ok


def exclude(H):
    n = H.choice('n', tuple(range(H.bound(4, 5))))
    sp = V if n < 2 else Spec(('none', 'bool', 'int', 'str'))
    xs = [H.value('x%d' % i, sp) for i in range(n)]
    v = validate.Exclude(*xs)
    value = H.value('value', V)
    for _ in range(2):
        ok = judge(H, v, value)
        H.check(H.iff(ok, H.Not(H.Or(*[H.eq(value, x) for x in xs]))), 'rejected exactly when equal to an excluded value')
    H.cover('%d %s' % (n, 'accepted' if ok else 'rejected'))
    H.out('ok', ok)


def exclude_falsy(H):
    """Falsy and container values are values like any others."""
    xs = H.choice('excluded', ((None,), (0,), ('',), (False,), ([],), ((1, 2),), ('ab',), ({},), (None, 0), ((),), ({1: 2}, 'x')))
    value = H.value('value', Spec(('none', 'bool', 'int', 'str', 'list', 'tuple', 'dict'), elem=Spec(('int',)), key=Spec(('int',)), maxlen=2))
    ok = judge(H, validate.Exclude(*xs), value)
    H.check(H.iff(ok, H.Not(H.Or(*[H.eq(value, x) for x in xs]))), 'rejected exactly when equal to an excluded value')
    H.cover('accepted' if ok else 'rejected')


def exclude_on_field(H):
    x = H.value('x', Spec(('int', 'str', 'bool')))

    class S(oblate.Schema):
        f = fields.Any(none=True, validators=[validate.Exclude(x, 'never')])
    value = H.value('value', Spec(('none', 'int', 'str', 'bool')))
    op = H.choice('op', ('load', 'update', 'set'))
    if op == 'load':
        ok, r = H.attempt(S, {'f': value})
    else:
        s = S({'f': None})
        ok, r = H.attempt(s.update, {'f': value}) if op == 'update' else H.attempt(setattr, s, 'f', value)
        H.check(H.implies(ok, H.same(s.f, value)), 'stored')
        H.check(ok or s.f is None, 'kept')
    H.check(H.iff(ok, H.Or(value is None, H.Not(H.Or(H.eq(value, x), H.eq(value, 'never'))))), 'rejected exactly when equal to an excluded value (None is not validated)')
    if not ok:
        H.check(isinstance(r, oblate.ValidationError) and list(r.raw()) == ['f'], 'validation error of the field')
    H.cover('accepted' if ok else 'rejected')


OUT = ('ok', 'value', 'assert', 'field', 'subvalue', 'subfield', 'empty', 'emptyassert', 'dict', 'list', 'blank', 'none') + tuple(EXC)


class ClassV(validate.Validator):
    def __init__(self, f):
        self.f = f

    def validate(self, value, context):
        return self.f(context.schema, value, context)


def make_v(H, w, ident, outs, cls=False):
    v = w.validator(ident, outs)
    if cls:
        return ClassV(v)
    return v


def or_direct(H):
    """Validators tried in order, stop at the first success, with the same arguments."""
    w = World(H)
    n = H.choice('n', tuple(range(H.bound(4, 5))))
    outs = OUT if n < 3 else ('ok', 'value', 'field', 'dict', 'foreign', 'key', 'interrupt')
    asclass = H.flip('class')
    vs = [make_v(H, w, 'v%d' % i, outs, asclass) for i in range(n)]
    got = {}

    class Tap(fields.Field):
        def value_load(self, value, context):
            got['context'] = context
            return value
    seen = {}

    class S(oblate.Schema):
        f = Tap(validators=[validate.Or(*vs)], none=True)
    value = H.value('value', Spec(('int', 'str')))
    w.begin('op')
    op = H.choice('op', ('load', 'update', 'set'))
    if op == 'load':
        ok, r = w.attempt(S, {'f': value})
    else:
        s = S({'f': None})
        ok, r = w.attempt(s.update, {'f': value}) if op == 'update' else w.attempt(setattr, s, 'f', value)
    exp, kind = [], 'none'
    for i in range(n):
        exp.append('v%d' % i)
        o = w.outcome('val', 'v%d' % i, outs)
        if o == 'ok':
            kind = 'ok'
            break
        if is_foreign(o):
            kind = 'foreign'
            break
    H.check([c[1] for c in w.log] == exp, 'tried in order up to the first success, each once')
    H.check(all([c[2] is value and c[3] is got['context'] and c[4] is got['context'].schema for c in w.log]), 'with the same schema, value and context')
    if kind == 'ok':
        H.check(ok, 'passes when one validator passes')
        H.cover('accepted')
    elif kind == 'foreign':
        H.check(not ok and isinstance(r, EXCS), 'any other exception is let through')
        H.cover('foreign')
    else:
        H.check(not ok and isinstance(r, oblate.ValidationError), 'fails when no validator passes')
        H.check(len(r.errors) == 1 and r.errors[0].key == 'f', 'as one error of the field')
        H.cover('rejected')
    H.cover('n%d' % n)


def large(H):
    """Many values, many validators: every one counts, in order."""
    n = 9
    what = H.choice('what', ('exclude', 'or'))
    at = H.choice('at', tuple(range(n)))
    if what == 'exclude':
        xs = [100 + i for i in range(n)]
        xs[at] = H.value('x', Spec(('none', 'bool', 'int', 'str', 'list'), elem=Spec(('int',)), maxlen=1))
        value = H.value('value', Spec(('none', 'bool', 'int', 'str', 'list'), elem=Spec(('int',)), maxlen=1))
        ok = judge(H, validate.Exclude(*xs), value)
        H.check(H.iff(ok, H.Not(H.Or(*[H.eq(value, x) for x in xs]))), 'rejected exactly when equal to an excluded value')
        H.cover('accepted' if ok else 'rejected')
        return
    w = World(H)
    outs = ('ok', 'value', 'field', 'assert', 'foreign')
    calls = []

    def make(i):
        def v(schema, value, context):
            calls.append(i)
            o = w.outcome('val', 'at', outs) if i == at else 'value'
            w.fail(o, 'val:%d' % i)
            return RETURNS[i % len(RETURNS)]
        return v
    class S(oblate.Schema):
        f = Pass(validators=[validate.Or(*[make(i) for i in range(n)])])
    ok, r = w.attempt(S, {'f': 1})
    o = w.outcome('val', 'at', outs)
    H.check(calls == list(range(at + 1 if o in ('ok', 'foreign') else n)), 'tried in order up to the first success')
    if o == 'foreign':
        H.check(not ok and isinstance(r, Foreign), 'let through')
    else:
        H.check(ok == (o == 'ok'), 'passes exactly when one of the validators passes')
        H.cover('accepted' if ok else 'rejected')


def or_nested(H):
    w = World(H)
    outs = ('ok', 'value', 'subfield', 'foreign')
    vs = [w.validator('v%d' % i, outs) for i in range(4)]
    shape = H.choice('shape', ('first', 'last', 'both'))
    O = validate.Or
    v = {'first': lambda: O(O(vs[0], vs[1]), vs[2]), 'last': lambda: O(vs[0], O(vs[1], vs[2])), 'both': lambda: O(O(vs[0], vs[1]), O(vs[2], vs[3]))}[shape]()
    order = 4 if shape == 'both' else 3

    class S(oblate.Schema):
        f = Pass(validators=[v])
    ok, r = w.attempt(S, {'f': 1})
    exp, kind = [], 'none'
    for i in range(order):
        exp.append('v%d' % i)
        o = w.outcome('val', 'v%d' % i, outs)
        if o == 'ok' or is_foreign(o):
            kind = o
            break
    H.check([c[1] for c in w.log] == exp, 'tried in order up to the first success')
    if kind == 'ok':
        H.check(ok, 'passes')
        H.cover('accepted')
    elif kind == 'none':
        H.check(not ok and isinstance(r, oblate.ValidationError) and len(r.errors) == 1, 'fails as one error')
        H.cover('rejected')
    else:
        H.check(not ok and isinstance(r, Foreign), 'let through')
        H.cover('foreign')


def or_library(H):
    """Or over the library's own validators, any integer; the validator is reused."""
    a, b, x = H.int('a'), H.int('b'), H.int('x')
    v = validate.Or(validate.Range(a, b), validate.Exclude(x))
    w = World(H)

    class S(oblate.Schema):
        f = fields.Integer(validators=[v])
        g = fields.Integer(required=False, validators=[v, validate.Exclude(7)])
    y, z = H.int('y'), H.int('z')
    ok, r = H.attempt(S, {'f': y, 'g': z})
    p = lambda t: H.Or(H.And(a <= t, t <= b), H.Not(H.eq(t, x)))
    H.check(H.iff(ok, H.And(p(y), p(z), H.Not(H.eq(z, 7)))), 'accepted exactly when one of the alternatives holds')
    H.cover('accepted' if ok else 'rejected')


exclude.covers = tuple('%d %s' % (n, r) for n in range(1, 4) for r in ('accepted', 'rejected')) + ('0 accepted',)
large.covers = exclude_falsy.covers = exclude_on_field.covers = or_library.covers = ('accepted', 'rejected')
or_direct.covers = ('accepted', 'rejected', 'foreign', 'n0', 'n1', 'n2', 'n3')
or_nested.covers = ('accepted', 'rejected', 'foreign')
SCENARIOS = dict(exclude=exclude, exclude_falsy=exclude_falsy, exclude_on_field=exclude_on_field, or_direct=or_direct, or_nested=or_nested, or_library=or_library, large=large)
