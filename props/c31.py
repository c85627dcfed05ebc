"""C31: reading a field by name or load key never confuses fields."""
import oblate
import model
from oblate import fields
from oblate.exceptions import FieldNotSet
from common import *

BOUNDS = ('schemas of 3 fields whose names and load keys overlap in every way used below, each set (to anything) or unset; symbolic names asked '
          'for; defaults of every kind, also None; load keys changed by subclasses; reading before, during and after construction, on subclasses and copies; two schemas of one name used alternately')
ASSUMPTIONS = ['the name asked for is a string']

# attribute name -> load key; the overlap is on purpose
SHAPES = {'plain': {'a': 'a', 'b': 'b', 'c': 'c'}, 'renamed': {'a': 'ka', 'b': 'kb', 'c': 'c'}, 'crossed': {'a': 'b', 'b': 'a', 'c': 'kc'},
          'shifted': {'a': 'b', 'b': 'c', 'c': 'z'}, 'dumped': {'a': 'ka', 'b': 'b', 'c': 'kc'}}


def make(H):
    shape = H.choice('shape', tuple(SHAPES))
    keys = SHAPES[shape]
    ns = {n: Pass(required=False, none=True, **({'load_key': k} if k != n else {}), **({'dump_key': 'd' + n} if shape == 'dumped' else {}))
          for n, k in keys.items()}
    ns['__module__'] = __name__
    return type(oblate.Schema)('S', (oblate.Schema,), ns), keys


def meant(H, keys, name):
    """The field a name means, or None (decides the symbolic name)."""
    for n in keys:
        if H.eq(name, n):
            return n
    for n, k in keys.items():
        if H.eq(name, k):
            return n
    return None


def read(H, cls, keys, s, values, name, default):
    """get_value_for() does what it should."""
    n = meant(H, keys, name)
    ok, r = H.attempt(s.get_value_for, name) if default is UNSET else H.attempt(s.get_value_for, name, default)
    if n is None:
        H.check(not ok and type(r) is RuntimeError, 'RuntimeError for any other name, default or not')
        H.cover('unknown')
    elif values[n] is not UNSET:
        H.check(ok and H.same(r, values[n]), 'the current value, never the default')
        H.cover('set')
    elif default is not UNSET:
        H.check(ok and H.same(r, default), 'the default for an unset field')
        H.cover('default')
    else:
        H.check(not ok and isinstance(r, FieldNotSet) and isinstance(r, AttributeError), 'FieldNotSet, an AttributeError')
        H.check(H.eq(r.name, name), 'with the name used')
        H.check(r.field is getattr(cls, n) and r.schema is s, 'the field and the schema')
        H.cover('unset')


def attribute(H, cls, keys, s, values, n):
    """Reading the attribute is the same."""
    ok, r = H.attempt(lambda: getattr(s, n))
    if values[n] is UNSET:
        H.check(not ok and isinstance(r, FieldNotSet) and r.name == n and r.field is getattr(cls, n) and r.schema is s, 'FieldNotSet')
        H.check(not hasattr(s, n), 'hasattr() works')
        H.check(H.same(getattr(s, n, 'dfl'), 'dfl'), 'getattr() with a default works')
        H.check(isinstance(r, oblate.OblateException) if hasattr(oblate, 'OblateException') else True, 'an error of the library')
    else:
        H.check(ok and H.same(r, values[n]), 'the value')


def names(H):
    """Every name, over every state."""
    cls, keys = make(H)
    H.universe('a', 'b', 'c', 'z', 'ka', 'kb', 'kc', 'da', 'db', 'dc')
    values, data = {}, {}
    for n, k in keys.items():
        values[n] = UNSET
        if H.flip('set.' + n):
            values[n] = data[k] = H.value('v.' + n, INPUT)
    s = cls(data)
    dfl = UNSET if H.flip('no default') else H.value('dfl', ANY)
    name = H.str('name', maxlen=3)
    read(H, cls, keys, s, values, name, dfl)
    n = H.choice('attr', tuple(keys))
    attribute(H, cls, keys, s, values, n)
    # after a change of that field
    v, ch = H.value('new', INPUT), n
    how = H.choice('change', ('set', 'update', 'copy'))
    t = s.copy() if how == 'copy' else s
    if how == 'update':
        t.update({keys[ch]: v})
    else:
        setattr(t, ch, v)
    values2 = dict(values)
    values2[ch] = v
    if t is not s:
        read(H, cls, keys, s, values, name, dfl)
    read(H, cls, keys, t, values2, name, dfl)


def stages(H):
    """Reading while the schema is under construction, after failures, and in subclasses."""
    seen = []
    ask = H.choice('name', ('a', 'ka', 'b', 'c', 'zz', 'kb', ''))
    dfl = H.choice('default', (UNSET, None, 0, 'd'))
    when = H.choice('when', ('pre', 'load', 'val', 'default', 'post', 'dump'))
    keys = {'a': 'ka', 'b': 'b', 'c': 'a'}
    vals = {'a': UNSET, 'b': UNSET, 'c': UNSET}

    def probe(schema, stage):
        if stage == when:
            seen.append(stage)
            read(H, type(schema), keys, schema, vals, ask, dfl)

    class Fd(Pass):
        def value_load(self, value, context):
            probe(context.schema, 'load' if self.name == 'b' else '')
            return value

        def value_dump(self, value, context):
            probe(context.schema, 'dump')
            return value

    def default(context, field):
        vals['a'] = 1
        probe(context.schema, 'default')
        return 9

    class S(oblate.Schema):
        a = Fd(load_key='ka')
        b = Fd(required=False)
        c = Fd(load_key='a', required=False) if when != 'default' else Fd(load_key='a', default=default)

        @oblate.validate.field('a')
        def check(self, value, context):
            vals['a'] = 1
            probe(self, 'val')

        def preprocess_data(self, data):
            probe(self, 'pre')
            return data

        def __schema_post_init__(self):
            probe(self, 'post')
    cls = S
    if H.flip('subclass'):
        class Sub(S):
            pass
        cls = Sub
    es = [('ka', 1)]
    if when in ('load', 'dump') or H.flip('b'):
        # b is loaded after (or before) a
        if H.flip('b first'):
            es.insert(0, ('b', 2))
        else:
            es.append(('b', 2))
    data = dict(es)
    if when == 'load' and es[0][0] == 'ka':
        vals['a'] = 1
    if when in ('val', 'default', 'post', 'dump'):
        vals['a'] = 1
        if 'b' in data:
            vals['b'] = 2
    s = cls(data)
    if when == 'dump':
        s.dump()
    H.check(seen, 'asked')
    H.cover(when)


def inherited(H):
    """Fields redefined, removed or swapped by subclasses: only the names of the class itself count."""
    H.universe('a', 'b', 'k', 'j', 'm', 'z')

    def fld(k):
        return Pass(required=False, none=True, **({'load_key': k} if k else {}))
    shape = H.choice('shape', ('redefined', 'plain again', 'swapped', 'taken', 'mixin', 'chain', 'removed'))

    class P(oblate.Schema):
        a = fld('k')
        b = fld(None)
    if shape == 'redefined':
        class C(P):
            a = fld('j')
        keys = {'a': 'j', 'b': 'b'}
    elif shape == 'plain again':
        class C(P):
            a = fld(None)
        keys = {'a': 'a', 'b': 'b'}
    elif shape == 'swapped':
        class C(P):
            a = fld('b')
            b = fld('k')
        keys = {'a': 'b', 'b': 'k'}
    elif shape == 'taken':
        class C(P):
            a = fld('j')
            z = fld('k')
        keys = {'a': 'j', 'b': 'b', 'z': 'k'}
    elif shape == 'mixin':
        class M(oblate.Schema):
            b = fld('m')

        class C(M, P):
            pass
        keys = {'a': 'k', 'b': 'm'}
    elif shape == 'chain':
        class D(P):
            a = fld('j')

        class C(D):
            a = fld('m')
        keys = {'a': 'm', 'b': 'b'}
    else:
        class C(P):
            z = fld('j')
        keys = {'a': 'k', 'b': 'b', 'z': 'j'}
    cls = C
    if H.flip('parent first'):
        P({'k': 'p', 'b': 'q'}).get_value_for('k')
    values, data = {}, {}
    for n, k in keys.items():
        values[n] = UNSET
        if H.flip('set.' + n):
            values[n] = data[k] = 'v' + n
    s = cls(data)
    read(H, cls, keys, s, values, H.str('name', maxlen=2), UNSET if H.flip('no default') else 'dfl')
    attribute(H, cls, keys, s, values, H.choice('attr', tuple(keys)))


def namesakes(H):
    """Schemas of one name with different fields, read alternately."""
    H.universe('a', 'b', 'c', 'z', 'ka', 'kb', 'kc')
    made = []
    for i in range(2):
        shape = H.choice('shape%d' % i, ('plain', 'renamed', 'crossed', 'shifted'))
        keys = SHAPES[shape]
        cls = type(oblate.Schema)('S', (oblate.Schema,), dict({n: Pass(required=False, **({'load_key': k} if k != n else {})) for n, k in keys.items()}, __module__=__name__))
        values, data = {}, {}
        for n, k in keys.items():
            values[n] = UNSET
            if H.flip('set%d.%s' % (i, n)):
                values[n] = data[k] = 'v%d' % i + n
        made.append((cls, keys, cls(data), values))
    name = H.str('name', maxlen=2)
    for i in (0, 1, 0):
        read(H, made[i][0], made[i][1], made[i][2], made[i][3], name, UNSET)
    n = H.choice('attr', ('a', 'b', 'c'))
    for i in (1, 0):
        attribute(H, made[i][0], made[i][1], made[i][2], made[i][3], n)


namesakes.covers = ('unknown', 'set', 'unset')
inherited.covers = ('unknown', 'set', 'default', 'unset')
names.covers = ('unknown', 'set', 'default', 'unset')
stages.covers = ('pre', 'load', 'val', 'default', 'post', 'dump')
SCENARIOS = dict(namesakes=namesakes, names=names, inherited=inherited, stages=stages)

SCENARIOS.update(
    blank=model.run(('read',), model.FIELD + model.DATA + model.USER + ('which', 'cfg_style'), (('none', 'update', 'set'),), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False}),
    deviations=model.run(('read',), model.FIELD + model.DATA + model.USER + ('which', 'state', 'cfg_style', 'cfg_frozen', 'typ', 'obj', 'inner_none'), (('none', 'update', 'set'),), (2, 4), ('ok', 'value'), free=('keys',)),
    scale=scale(('read',), ('construct', 'update')),
)
