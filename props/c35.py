"""C35: a schema shows its set fields, and its classes get the representation and slots configured."""
import itertools
import oblate
import model
from oblate import fields, validate
from common import *

BOUNDS = ('schemas of up to 3 fields with keys of their own, any values (symbolic scalars, objects, nested schemas to depth 2); after every step of histories of up to 2 (4) '
          'constructions, updates, assignments and copies, successful or failing, and from user code in the middle of them; classes with every combination of configuration, '
          'own __repr__ and own __slots__, up to two levels of inheritance and two parents')
ASSUMPTIONS = ['the values have a representation']
SCALAR = Spec(('none', 'bool', 'int', 'str'))


class Token:
    """A value with a representation of its own, different from its text."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name

    def __str__(self):
        return 'text of ' + self.name


def shown(H, text, name, values):
    """text is name(...) with exactly the given values, in any order."""
    parts = ['%s=%r' % (n, v) for n, v in values.items()]
    return H.Or(*[H.eq(text, '%s(%s)' % (name, ', '.join(order))) for order in itertools.permutations(parts)])


def check_shown(H, s, name, values):
    for how in (repr, str):
        ok, text = H.attempt(lambda: how(s))
        H.check(ok, 'a schema always has a representation')
        H.check(shown(H, text, name, values), 'the class and exactly the set fields with their values')


class Flaky(Pass):
    """Rejects the text 'bad'."""

    def value_load(self, value, context):
        if isinstance(value, Token) and value.name == 'bad':
            raise ValueError('bad')
        return value


def states(H):
    """After every step of a history."""
    ns = {'__module__': __name__, 'a': Flaky(none=True, required=False, **({'load_key': 'ka', 'dump_key': 'da'} if H.flip('keys') else {})),
          'b': Flaky(none=True, required=False, **({'default': H.choice('default', (0, None, 'x'))} if H.flip('has default') else {}))}
    ns['c'] = Flaky(none=True, frozen=True, required=False)
    S = type(oblate.Schema)('Shown', (oblate.Schema,), ns)
    key = {n: getattr(S, n).load_key for n in 'abc'}

    def value(name):
        kind = H.choice('kind.' + name, ('scalar', 'token', 'bad', 'list') if H.thorough else ('scalar', 'token', 'bad'))
        return H.value(name, SCALAR) if kind == 'scalar' else Token('bad') if kind == 'bad' else [Token(name), 1] if kind == 'list' else Token(name)

    def is_bad(v):
        return isinstance(v, Token) and v.name == 'bad'
    data = {n: Token('first ' + n) for n in 'abc' if H.flip('has.' + n)}
    s = S({key[n]: v for n, v in data.items()})
    values = dict(data)
    if 'b' not in values and H.flip('has default'):
        values['b'] = H.choice('default', (0, None, 'x'))
    check_shown(H, s, 'Shown', values)
    for i in range(H.bound(2, 3)):
        op = H.choice('op%d' % i, ('end', 'set', 'update', 'copy'))
        if op == 'end':
            break
        if op == 'copy':
            old, s = s, s.copy()
            H.attempt(setattr, old, 'a', Token('of the original'))
        elif op == 'set':
            n = H.choice('name%d' % i, ('a', 'b', 'c'))
            v = value('v%d' % i)
            ok, r = H.attempt(setattr, s, n, v)
            if n != 'c' and not is_bad(v):
                values[n] = v
            else:
                H.cover('failed')
        else:
            v = value('v%d' % i)
            extra = H.flip('extra%d' % i)
            ok, r = H.attempt(s.update, {key['b']: v, key['a']: Token('u%d' % i), **({'zz': 1} if extra else {})})
            if not extra and not is_bad(v):
                values['b'], values['a'] = v, Token('u%d' % i)
                values['a'].name = 'u%d' % i
            else:
                H.cover('failed')
        check_shown(H, s, 'Shown', values)
        H.cover(op)


def during(H):
    """User code can print the schema at any moment."""
    at = H.choice('at', ('preprocess', 'load', 'val', 'raw', 'schema val', 'default', 'init', 'dump'))
    seen = []

    def look(s):
        ok, text = H.attempt(lambda: repr(s))
        seen.append((ok, text))

    class P(Pass):
        def value_load(self, value, context):
            if at == 'load':
                look(context.schema)
            return value

        def value_dump(self, value, context):
            if at == 'dump':
                look(context.schema)
            return value

    def default(context, field):
        if at == 'default':
            look(context.schema)
        return 7

    class S(oblate.Schema):
        a = P()
        b = P(default=default)

        def preprocess_data(self, data):
            if at == 'preprocess':
                look(self)
            return data

        def __schema_post_init__(self):
            if at == 'init':
                look(self)

        @validate.field(a)
        def check(self, value, context):
            if at == 'schema val':
                look(self)

    if at in ('val', 'raw'):
        S.a.add_validator(lambda s, v, c: look(s), raw=at == 'raw')
    v = H.value('v', SCALAR)
    if v is None:
        return
    s = S({'a': v})
    if at == 'dump':
        s.dump()
    if at in ('load', 'val', 'raw', 'schema val') and H.flip('again'):
        del seen[:]
        s.update({'a': 5})
        H.check(len(seen) == 1, 'asked once')
        H.check(H.Or(*[shown(H, seen[0][1], 'S', {'a': x, 'b': 7}) for x in (v, 5)]), 'the values before or after')
        H.cover('update')
        return
    H.check(len(seen) >= 1, 'asked')
    for ok, text in seen:
        H.check(ok, 'a schema always has a representation')
        if at in ('init', 'dump'):
            H.check(shown(H, text, 'S', {'a': v, 'b': 7}), 'all the fields of a constructed schema')
        else:
            H.check(H.Or(*[shown(H, text, 'S', d) for d in ({}, {'a': v}, {'b': 7}, {'a': v, 'b': 7})]), 'only fields set so far')
    H.cover('construct')


def nested(H):
    """Nested schemas are shown inside."""
    class In(oblate.Schema):
        x = Pass(none=True, required=False)
        y = Pass(required=False)
        if H.flip('own'):
            def __repr__(self):
                return 'In!'

    class Mid(oblate.Schema):
        i = fields.Object(In, none=True, required=False)

    class Out(oblate.Schema):
        m = fields.Object(Mid)
        z = Pass(required=False)

    inner = {'x': H.value('x', SCALAR)} if H.flip('x') else {}
    m = {'i': H.choice('i', ('mapping', 'none', 'instance'))} if H.flip('i set') else {}
    if m:
        m['i'] = dict(inner) if m['i'] == 'mapping' else None if m['i'] == 'none' else In(inner)
    s = Out({'m': m, **({'z': 1} if H.flip('z') else {})})
    if H.flip('own'):
        ti = 'In!'
    else:
        ti = 'In(%s)' % ', '.join('x=%r' % (v,) for v in inner.values())
    tm = 'Mid()' if not m else 'Mid(i=None)' if m['i'] is None else 'Mid(i=%s)' % ti
    t = ['m=' + tm] + (['z=1'] if H.flip('z') else [])
    for how in (repr, str):
        text = how(s)
        H.check(H.Or(*[H.eq(text, 'Out(%s)' % ', '.join(o)) for o in (t, t[::-1])]), 'nested schemas inside')
    H.cover('probed')


def custom(H):
    """Own representations, the configuration and subclasses."""
    conf = H.choice('config', (None, True, False))
    how = H.choice('own', (None, 'repr', 'str', 'both', 'assigned'))
    ns = {'__module__': __name__, 'a': Pass(), 'b': Pass(required=False)}
    if conf is not None:
        ns['Config'] = type('Config', (oblate.SchemaConfig,), {'add_repr': conf, **({'frozen': True} if H.flip('frozen') else {})})
    if how in ('repr', 'both'):
        ns['__repr__'] = lambda self: 'own of %s' % (self.a,)
    if how == 'assigned':
        ns['__repr__'] = object.__repr__
    if how in ('str', 'both'):
        ns['__str__'] = lambda self: 'text of %s' % (self.a,)
    S = type(oblate.Schema)('S', (oblate.Schema,), ns)
    s = S({'a': 4})
    if how in ('repr', 'both'):
        H.check(repr(s) == 'own of 4', 'the representation of the class itself')
    elif how == 'assigned' or conf is False:
        H.check(S.__repr__ is object.__repr__ and H.attempt(lambda: repr(s))[0], 'no representation is added')
        H.cover('plain')
    else:
        H.check(repr(s) == 'S(a=4)', 'the representation added')
    if how in ('str', 'both'):
        H.check(str(s) == 'text of 4', 'the text of the class itself')
    else:
        H.check(str(s) == repr(s), 'the text is the representation')
    # the class below, with fields of its own
    below = H.choice('below', (None, True, False))
    ns = {'__module__': __name__, 'd': Pass(required=False)}
    if below is not None:
        ns['Config'] = type('Config', (oblate.SchemaConfig,), {'add_repr': below})
    if H.flip('own below'):
        ns['__repr__'] = lambda self: 'below'
    bases = (S,) if not H.flip('two parents') else (S, type(oblate.Schema)('Other', (oblate.Schema,), {'__module__': __name__, 'q': Pass(required=False)}))
    B = type(oblate.Schema)('B', bases, ns)
    b = B({'a': 1, 'd': 2})
    if H.flip('own below'):
        H.check(repr(b) == 'below', 'the representation of the class itself')
    elif below or below is None and conf is not False:
        H.check(repr(b) in ('B(a=1, d=2)', 'B(d=2, a=1)'), 'the representation added, with the fields of all parents')
        H.cover('below')
    H.check(repr(s) == ('own of 4' if how in ('repr', 'both') else 'S(a=4)') or how == 'assigned' or conf is False, 'the parent keeps its own')
    H.cover('probed')


def slots(H):
    """Attributes that are no fields are refused unless the class allows them."""
    def add(name, bases):
        ns = {'__module__': __name__, 'f' + name: Pass(required=False)}
        slotted = H.choice('slotted.' + name, (None, True, False))
        own = H.choice('slots.' + name, (None, (), ('x',)))
        if slotted is not None:
            ns['Config'] = type('Config', (oblate.SchemaConfig,), {'slotted': slotted})
        if own is not None:
            ns['__slots__'] = own
        cls = type(oblate.Schema)(name, tuple(b[0] for b in bases) or (oblate.Schema,), ns)
        eff = slotted if slotted is not None else bases[0][1] if bases else True
        return cls, eff, (own is None and not eff) or any(b[2] for b in bases), (own == ('x',)) or any(b[3] for b in bases)
    p = add('P', ())
    c = add('C', (p,)) if H.flip('sub') else p
    cls, _, free, x = c
    s = cls({})
    ok, r = H.attempt(setattr, s, 'zz', 1)
    H.check(ok == free, 'unknown attributes exactly for classes that are not slotted')
    H.check(ok or type(r) is AttributeError, 'AttributeError')
    H.check(ok == hasattr(s, 'zz'), 'set or not')
    ok, r = H.attempt(setattr, s, 'x', 2)
    H.check(ok == (free or x), 'the slots of the class')
    H.check(not ok or s.x == 2, 'set')
    ok, r = H.attempt(setattr, s, 'fP', H.value('v', NONNULL))
    H.check(ok and H.same(s.fP, r if False else H.value('v', NONNULL)), 'fields are fields')
    H.check(sorted(s.dump()) == ['fP'], 'attributes are never dumped')
    ok, r = H.attempt(delattr, s, 'fP')
    H.check(not ok and H.same(s.fP, H.value('v', NONNULL)), 'fields cannot be deleted')
    H.check(hasattr(s.copy(), 'zz') == free and H.same(s.copy().fP, s.fP), 'attributes are copied')
    check_shown(H, s, cls.__name__, {'fP': s.fP})
    H.cover('free' if free else 'slotted')


states.covers = ('set', 'update', 'copy', 'failed')
during.covers = ('construct', 'update')
nested.covers = ('probed',)
custom.covers = ('probed', 'plain', 'below')
slots.covers = ('free', 'slotted')
SCENARIOS = dict(states=states, during=during, nested=nested, custom=custom, slots=slots)
