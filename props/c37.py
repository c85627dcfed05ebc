"""C37: declarations that make no sense are refused when they are made, and leave nothing behind."""
import typing
import oblate
from oblate import fields, validate
from common import *

BOUNDS = ('objects of the listed kinds (symbolic scalars and containers of up to 2 elements, classes, functions, instances, schemas, fields) for every parameter concerned; '
          'symbolic names for validators given by name, over classes with up to two parents; up to 3 validators and alternatives')
ASSUMPTIONS = []
DATA = Spec(('none', 'bool', 'int', 'float', 'str', 'list', 'tuple', 'set', 'dict', 'obj'), elem=Spec(('int', 'str')), key=Spec(('str',)), maxlen=2)


class Sch(oblate.Schema):
    x = Pass(required=False)


class Sub(Sch):
    y = Pass(required=False)


class Callable:
    def __call__(self, schema, value, context):
        return None


class NotCallable:
    pass


class Val(validate.Validator):
    def validate(self, value, context):
        return None


class RawVal(validate.Validator, raw=True):
    def validate(self, value, context):
        return None


def function(schema, value, context):
    return None


GOOD = {'function': function, 'builtin': print, 'callable object': Callable(), 'validator': Val(), 'raw validator': RawVal(), 'class': Callable, 'method': Callable().__call__}
BAD = {'instance': NotCallable(), 'schema': Sch({}), 'field': Pass(), 'config': oblate.config, 'ellipsis': ..., 'not implemented': NotImplemented}


def thing(H, name, good=GOOD, bad=BAD):
    """Some object, and whether it is one of the good ones."""
    kind = H.choice('kind.' + name, ('data',) + tuple(good) + tuple(bad))
    if kind == 'data':
        return H.value(name, DATA), False
    return (good[kind], True) if kind in good else (bad[kind], False)


def validators(H):
    """Exactly callables are taken as validators - when declared, added and removed - and a refusal changes nothing."""
    first = H.choice('registered', ((), ('function',), ('validator', 'raw validator'), ('function', 'function')))
    f = Pass(validators=[GOOD[k] for k in first])
    bound = H.flip('bound')
    if bound:
        S = type(oblate.Schema)('S', (oblate.Schema,), {'a': f, '__module__': __name__})
    before = [list(f.walk_validators(raw=r)) for r in (False, True)]
    v, good = thing(H, 'v')
    how = H.choice('how', ('add', 'add raw', 'remove', 'remove raw', 'param', 'second param'))
    kw = {'raw': True} if how.endswith('raw') else {}
    if how.startswith('add'):
        ok, r = H.attempt(f.add_validator, v, **kw)
    elif how.startswith('remove'):
        ok, r = H.attempt(f.remove_validator, v, **kw)
    else:
        ok, r = H.attempt(lambda: Pass(validators=[v] if how == 'param' else [function, v]))
    H.check(ok is good, 'exactly callables are validators')
    if not good:
        H.check(isinstance(r, TypeError), 'refused with TypeError')
        H.check([list(f.walk_validators(raw=r)) for r in (False, True)] == before, 'nothing is changed by a refusal')
        H.cover('refused ' + how)
    else:
        if not ok:
            return
        H.cover('accepted ' + how)
        if how.startswith('add'):
            n = sum(len(list(f.walk_validators(raw=r))) for r in (False, True))
            H.check(n == len(first) + 1, 'registered once')
        elif how.startswith('remove'):
            raw = how == 'remove raw'
            eff = getattr(v, '__validator_is_raw__', raw)
            was = any([x is v for x in before[1 if eff else 0]])
            n = sum(len(list(f.walk_validators(raw=r))) for r in (False, True))
            H.check(n == len(first) - (1 if was else 0), 'removed once if it was registered')


validators.covers = tuple(a + ' ' + h for a in ('accepted', 'refused') for h in ('add', 'add raw', 'remove', 'remove raw', 'param', 'second param'))
SCHEMAS = {'schema': Sch, 'subclass': Sub, 'base': oblate.Schema}
NOSCHEMAS = {'instance': Sch({}), 'class': NotCallable, 'builtin': dict, 'typed dict': typing.TypedDict('TD', {'x': int}), 'expression': typing.List[Sch], 'union': typing.Union[Sch, int],
             'field': Pass(), 'field class': Pass, 'config': oblate.SchemaConfig, 'metaclass': type(oblate.Schema), 'function': function}


def nested(H):
    """Object fields take exactly schema classes."""
    v, good = thing(H, 'v', SCHEMAS, NOSCHEMAS)
    ok, r = H.attempt(lambda: fields.Object(v, **({'required': False} if H.flip('more') else {})))
    H.check(ok is good, 'exactly schema classes')
    if ok:
        H.check(r.schema_cls is v, 'kept')
        H.cover('accepted')
    else:
        H.check(isinstance(r, TypeError), 'refused with TypeError')
        H.cover('refused')


nested.covers = ('accepted', 'refused')


def parameters(H):
    """Dictionaries with half a type, unions without alternatives."""
    what = H.choice('what', ('dict', 'union'))
    n = H.choice('n', (0, 1, 2) if what == 'dict' else (0, 1, 2, 3))
    types = [H.choice('t%d' % i, (int, str, typing.Any, None, typing.List[int])) for i in range(n)]
    required = H.flip('required')
    ok, r = H.attempt(lambda: (fields.Dict if what == 'dict' else fields.Union)(*types, required=required))
    want = n != 1 if what == 'dict' else n >= 2
    H.check(ok is want, 'exactly the sensible numbers of types')
    if ok:
        H.check(r.required is required, 'the other parameters are kept')
    else:
        H.check(isinstance(r, TypeError), 'refused with TypeError')
    H.cover(what + (' accepted' if ok else ' refused'))


parameters.covers = tuple(w + a for w in ('dict', 'union') for a in (' accepted', ' refused'))


def names(H):
    """Validators for names: exactly the names of own and inherited fields; a refused class changes no parent."""
    H.universe('ab', 'a', 'b', 'c', 'k', 'm', 'p')
    ns = {'__module__': __name__}
    P = type(oblate.Schema)('P', (oblate.Schema,), dict(ns, a=Pass(required=False, load_key='k'), m=lambda self: None))
    Q = type(oblate.Schema)('Q', (oblate.Schema,), dict(ns, b=Pass(required=False)))
    parents = H.choice('parents', ('none', 'P', 'both'))
    bases = {'none': (oblate.Schema,), 'P': (P,), 'both': (P, Q)}[parents]
    own = H.flip('own')
    redefined = H.flip('redefined')
    ran = []

    def check(self, value, context):
        ran.append(value)
    name = H.str('name')
    raw = H.flip('raw')
    body = dict(ns)
    if own:
        body['c'] = Pass(required=False)
    if redefined:
        body['a'] = Pass(required=False)
    late = H.flip('validator last')
    body = dict(body, check=validate.field(name, raw=raw)(check)) if late else dict({'check': validate.field(name, raw=raw)(check)}, **body)
    ok, C = H.attempt(type(oblate.Schema), 'C', bases, body)
    known = (['a'] if parents != 'none' or redefined else []) + (['b'] if parents == 'both' else []) + (['c'] if own else [])
    want = H.Or(*[H.eq(name, n) for n in known])
    H.check(H.iff(ok, want), 'exactly the names of fields')
    v = H.value('v', NONNULL)
    if ok:
        hit = [n for n in known if name == n][0]
        f = getattr(C, hit)
        c = C({f.load_key: v})
        H.check(len(ran) == 1 and H.same(ran[0], v), 'the validator runs')
        for n in known:
            if n != hit:
                C({getattr(C, n).load_key: v})
        H.check(len(ran) == 1, 'for no other field')
        H.cover('accepted')
    else:
        H.check(isinstance(C, TypeError), 'refused with TypeError')
        H.cover('refused')
    ran.clear()
    p, q = P({'k': v}), Q({'b': v})
    H.check(not ran and H.same(p.a, v) and H.same(q.b, v), 'parents are not affected')
    H.check(P.a.schema is P and Q.b.schema is Q and not list(P.a.walk_validators()) and not list(Q.b.walk_validators()), 'nor their fields')
    ok, C = H.attempt(type(oblate.Schema), 'C', (P, Q), dict(ns, c=Pass(required=False)))
    H.check(ok, 'another class can be made')
    c = C({'k': v, 'c': v})
    H.check(H.same(c.a, v) and not ran, 'without that validator')


names.covers = ('accepted', 'refused')
FIELDS = {'name': 'a', 'field': None}
NOFIELDS = {'class': Pass, 'schema': Sch, 'instance': Sch({}), 'function': function, 'member': 'm', 'missing': 'nope'}


def decorated(H):
    """Validators for things that are no fields and no names of fields are refused with the class."""
    kind = H.choice('kind', ('data',) + tuple(FIELDS) + tuple(NOFIELDS))
    a = Pass(required=False)
    x = H.value('x', DATA) if kind == 'data' else 'a' if kind == 'name' else a if kind == 'field' else NOFIELDS[kind]
    if kind == 'data':
        H.assume(H.Not(H.eq(x, 'a')) if isinstance(x, str) else True)
    raw = H.flip('raw')
    other = H.flip('another validator')

    def check(self, value, context):
        raise ValueError('checked')

    def first(self, value, context):
        return None
    ns = {'__module__': __name__, 'a': a, 'm': function}
    if other:
        ns['first'] = validate.field('a')(first)
    ns['check'] = validate.field(x, raw=raw)(check)
    ok, S = H.attempt(type(oblate.Schema), 'S', (oblate.Schema,), ns)
    H.check(ok is (kind in FIELDS), 'exactly fields and their names')
    if ok:
        ok, r = H.attempt(S, {'a': 1})
        H.check(not ok and isinstance(r, oblate.ValidationError), 'the validator runs')
        H.cover('accepted')
    else:
        H.check(isinstance(S, TypeError), 'refused with TypeError')
        H.cover('refused')


decorated.covers = ('accepted', 'refused')


def binding(H):
    """A field tells the schema and name it belongs to, or that it has none; it belongs to one only."""
    how = H.choice('how', ('new', 'copy', 'copied copy', 'bound', 'twice', 'other schema', 'inherited', 'parent'))
    f = H.choice('field', (lambda: Pass(required=False), lambda: fields.String(required=False), lambda: fields.Object(Sch, required=False), lambda: fields.List(int, required=False)))()
    ns = {'__module__': __name__}
    meta = type(oblate.Schema)
    if how in ('new', 'copy', 'copied copy'):
        if how != 'new':
            if H.flip('of bound'):
                meta('S', (oblate.Schema,), dict(ns, a=f))
            f = f.copy() if how == 'copy' else f.copy().copy()
        for get in (lambda: f.schema, lambda: f.name):
            ok, r = H.attempt(get)
            H.check(not ok and isinstance(r, RuntimeError), 'a field of no schema says so')
        H.cover('unbound')
        S = meta('S', (oblate.Schema,), dict(ns, z=f))
        H.check(f.schema is S and f.name == 'z' and S.z is f, 'it belongs to a schema then')
        return
    S = meta('S', (oblate.Schema,), dict(ns, a=f))
    H.check(f.schema is S and f.name == 'a', 'the schema and name of the field')
    if how in ('twice', 'other schema'):
        bases = (S,) if how == 'twice' else (oblate.Schema,)
        name = H.choice('name', ('a', 'b'))
        ok, r = H.attempt(meta, 'T', bases, dict(ns, **{name: f}))
        H.check(not ok and isinstance(r, RuntimeError), 'a field belongs to one schema only')
        H.cover('refused')
    elif how in ('inherited', 'parent'):
        T = meta('T', (S,), dict(ns, **({'b': Pass(required=False)} if how == 'parent' else {})))
        ok, r = H.attempt(T, {})
        H.check(ok, 'subclasses work')
        H.cover('inherited')
    H.check(f.schema is S and f.name == 'a' and S.a is f, 'still the schema and name')
    for get in (f.load_key, f.dump_key):
        H.check(get == 'a', 'and the keys')


binding.covers = ('unbound', 'refused', 'inherited')


def formatting(H):
    """What format_error returns must be a text, an error or nothing: anything else is refused with TypeError when it happens, and changes nothing."""
    kind = H.choice('kind', ('data', 'error', 'class', 'function', 'exception'))
    v = H.value('v', DATA) if kind == 'data' else {'error': None, 'class': oblate.FieldError, 'function': function, 'exception': ValueError('x')}[kind]
    why = H.choice('why', ('none', 'load', 'validator', 'missing'))
    op = H.choice('op', ('construct', 'update', 'set'))

    class Fmt(fields.Field):
        def value_load(self, value, context):
            if why == 'load' and value == 'bad':
                raise ValueError
            return value

        def value_dump(self, value, context):
            return value

        def format_error(self, code, context):
            return oblate.FieldError('mine') if kind == 'error' else v

    def check(schema, value, context):
        assert not (why == 'validator' and value == 'bad')
    S = type(oblate.Schema)('S', (oblate.Schema,), {'__module__': __name__, 'a': Fmt(validators=[check]), 'b': Pass(required=False)})
    data = {'a': None if why == 'none' else 'bad', 'b': 2}
    if why == 'missing':
        if op != 'construct':
            return
        del data['a']
    if op == 'construct':
        ok, r = H.attempt(S, data)
    else:
        s = S({'a': 'good', 'b': 1})
        ok, r = H.attempt(s.update, data) if op == 'update' else H.attempt(setattr, s, 'a', data['a'])
        H.check(s.a == 'good' and s.b == 1, 'nothing is changed')
    H.check(not ok, 'fails')
    fine = kind == 'error' or kind == 'data' and isinstance(v, (str, type(None)))
    if fine:
        H.check(isinstance(r, oblate.ValidationError) and len(r.errors) == 1, 'reported')
        if kind == 'error' or isinstance(v, str):
            H.check(H.eq(r.errors[0].message, 'mine' if kind == 'error' else v), 'with the message given')
        H.cover('reported')
    else:
        H.check(isinstance(r, TypeError), 'refused with TypeError')
        H.cover('refused')
    ok, s = H.attempt(S, {'a': 'good'})
    H.check(ok and s.a == 'good' and not hasattr(s, 'b'), 'later operations are not affected')


formatting.covers = ('reported', 'refused')
SCENARIOS = dict(validators=validators, nested=nested, parameters=parameters, names=names, decorated=decorated, binding=binding, formatting=formatting)
