"""C23: a copied field is an unbound, independent field with the same behaviour."""
import typing
import oblate
from oblate import fields, validate
from common import *

BOUNDS = ('user-defined fields with every combination of the options (none, required/default, frozen, key options, validators of both kinds) and the built-in fields listed; '
          'validators registered through every route, the class body included; histories of up to 2 (thorough: 3) validator edits on either side; copies of copies; values of the listed kinds')
ASSUMPTIONS = ['values stored by mutable options (extras, defaults) are shared between the copies, as the documentation of shallow copying implies']


def key_options(H):
    k = H.choice('keys', ('none', 'load', 'dump', 'data', 'both'))
    return {'none': {}, 'load': dict(load_key='L'), 'dump': dict(dump_key='D'), 'data': dict(data_key='K'), 'both': dict(load_key='L', dump_key='D')}[k]


def behaviour(H):
    """A copy under another name in another schema is predicted by the options of the original."""
    w = World(H)
    kw = key_options(H)
    opt = H.choice('presence', ('required', 'optional', 'default', 'none default', 'empty default', 'list default'))
    none, frozen = H.flip('none'), H.flip('frozen')
    default = {'default': 7, 'none default': None, 'empty default': {}, 'list default': [0]}.get(opt, UNSET)
    f = F('b', key=kw.get('load_key', kw.get('data_key', 'b')), none=none, required=opt == 'required', default=default, frozen=frozen, raws=['r'], vals=['v'],
          dump_key=kw.get('dump_key', kw.get('data_key', 'b')))
    a = HField(w, 'a', none=none, required=opt != 'optional', frozen=frozen, validators=[w.validator('v'), w.validator('r', raw=True)], extras={'x': 1},
               **kw, **({} if default is UNSET else dict(default=default)))
    when = H.choice('when', ('before binding', 'after binding', 'copy of copy'))
    if when == 'before binding':
        b = a.copy()
        S = type(oblate.Schema)('S', (oblate.Schema,), {'a': a, '__module__': __name__})
    else:
        S = type(oblate.Schema)('S', (oblate.Schema,), {'a': a, '__module__': __name__})
        b = S.a.copy() if when == 'after binding' else S.a.copy().copy()
    H.check(b is not a and type(b) is HField, 'a new field of the same class')
    H.check(not H.attempt(lambda: b.schema)[0] and not H.attempt(lambda: b.name)[0], 'the copy is unbound')
    b.ident = 'b'
    T = type(oblate.Schema)('T', (oblate.Schema,), {'b': b, '__module__': __name__})
    H.check(a.schema is S and a.name == 'a' and b.schema is T and b.name == 'b' and T.b is b and S.a is a, 'bound separately')
    H.check((a.load_key, a.dump_key) == (kw.get('load_key', kw.get('data_key', 'a')), kw.get('dump_key', kw.get('data_key', 'a'))), 'the keys of the original')
    H.check((b.load_key, b.dump_key) == (f.key, f.dump_key), 'the keys of the copy')
    H.check((b.none, b.required, b.frozen, b.has_default()) == (none, opt == 'required', frozen, default is not UNSET), 'the options of the copy')
    H.check(b.extras == {'x': 1} and b.default is (None if default is UNSET else default), 'extras and default')
    w.begin('op')
    entries = [(f.key, H.value('value', INPUT))] if H.flip('given') else []
    p = predict(w, [f], entries, 'op', False)
    ok, r = w.attempt(T, dict(entries))
    if check_result(H, w, p, ok, r, 'construction'):
        H.check(same_multiset(observed_errors([f], entries, r), p.errors), 'the errors of the original')
    elif ok:
        H.check(same_state(H, state_of(r, ['b']), {'b': p.values.get('b', UNSET)}), 'the value')
        w.begin('dump')
        w.douts = b.douts = ('ok',)
        d = r.dump()
        H.check(list(d) == ([] if 'b' not in p.values else [f.dump_key]), 'the dump key')
        ok2, r2 = w.attempt(r.update, {f.key: None})
        H.check(not frozen or (not ok2 and isinstance(r2, oblate.FrozenError)), 'frozen like the original')
        H.cover('used')


class Coded:
    def format_error(self, code, context):
        return 'code:%s' % (code,)


def coded(base):
    return type(base)('Coded' + base.__name__, (Coded, base), {'__module__': __name__})


class TD(typing.TypedDict, total=False):
    x: typing.Required[int]


class Inner(oblate.Schema):
    x = fields.Integer()


SC = Spec(('none', 'bool', 'int', 'float', 'str'))
ST = Spec(('none', 'int', 'list', 'set', 'dict', 'tuple'), elem=Spec(('int', 'str')), key=Spec(('str',), strings=('x', 'y')), maxlen=1)
BUILTIN = (
    (fields.String, (), dict(strict=False), SC), (fields.String, (), {}, SC), (fields.Integer, (), dict(strict=False), SC), (fields.Integer, (), {}, SC),
    (fields.Float, (), dict(strict=False), SC), (fields.Float, (), {}, SC), (fields.Boolean, (), dict(strict=False, true_values=['on'], false_values=['off']), Spec(('bool', 'str', 'int', 'none'), strings=('on', 'off', 'true'))),
    (fields.Boolean, (), {}, SC), (fields.Any, (), {}, SC), (fields.Literal, (1, 'a'), {}, SC), (fields.Union, (int, str), {}, SC), (fields.TypeExpr, (typing.Optional[int],), {}, SC),
    (fields.List, (), {}, ST), (fields.List, (int,), {}, ST), (fields.Set, (str,), {}, ST), (fields.Dict, (str, int), {}, ST), (fields.Dict, (), {}, ST), (fields.TypedDict, (TD,), {}, ST),
    (fields.Object, (Inner,), {}, ST), (fields.Object, (Inner,), dict(init_kwargs=dict(ignore_extra=True)), ST),
)


def builtin(H):
    """Original and copy treat every value alike."""
    cls, args, kw, spec = BUILTIN[H.choice('field', tuple(range(len(BUILTIN))))]
    v = H.value('v', spec)
    check = H.flip('validator')

    def no_seven(schema, value, context):
        assert value != 7, 'seven'
    a = coded(cls)(*args, none=H.flip('none'), validators=[no_seven] if check else [], **kw)
    S = type(oblate.Schema)('S', (oblate.Schema,), {'a': a, '__module__': __name__})
    b = S.a.copy()
    T = type(oblate.Schema)('T', (oblate.Schema,), {'a': b, '__module__': __name__})
    op = H.choice('op', ('load', 'set'))
    ok1, r1 = H.attempt(S, {'a': v})
    ok2, r2 = H.attempt(T, {'a': v})
    H.check(ok1 == ok2, 'both accept or both reject')
    if not ok1:
        H.check(type(r1) is type(r2), 'the same kind of error')
        H.check(len(r1.errors) == len(r2.errors) and all([x.field is a and y.field is b for x, y in zip(r1.errors, r2.errors)]), 'the errors belong to their own field')
        H.check(H.eq(r1.raw(), r2.raw()), 'the same errors')
        H.cover('rejected')
        return
    H.check(H.Or(r1.a is r2.a, type(r1.a) is type(r2.a)), 'the same type of value')
    d1, d2 = H.attempt(r1.dump), H.attempt(r2.dump)
    H.check(d1[0] == d2[0] and H.eq(d1[1], d2[1]), 'the same dump')
    H.cover('accepted')


def edits(H):
    """Validators edited on either side (or both) stay on that side."""
    w = World(H)
    fs = {k: w.validator(k, ('ok',)) for k in ('p', 'q', 'r')}
    has = H.choice('has', ('both', 'none', 'plain', 'raw'))
    a = HField(w, 'a', outs=('ok',), validators=[fs['p']] if has in ('both', 'plain') else [])
    if has in ('both', 'raw'):
        a.add_validator(fs['q'], raw=True)
    bound = H.flip('bound')
    if bound:
        type(oblate.Schema)('S', (oblate.Schema,), {'a': a, '__module__': __name__})
    b = a.copy().copy() if H.flip('copy of copy') else a.copy()
    sides = {s: (f, {False: ['p'] if has in ('both', 'plain') else [], True: ['q'] if has in ('both', 'raw') else []}) for s, f in (('a', a), ('b', b))}
    steps = [(s, act, k, raw) for s in 'ab' for act, k, raw in (('add', 'r', False), ('add', 'r', True), ('add', 'p', True), ('remove', 'p', False), ('remove', 'q', True), ('clear', None, True), ('clear', None, False), ('clear', None, None))]
    names = {id(v): k for k, v in fs.items()}
    for n in range(H.bound(2, 3)):
        side, act, k, raw = steps[H.choice('step%d' % n, tuple(range(len(steps))))]
        f, model = sides[side]
        if act == 'add':
            f.add_validator(fs[k], raw=raw)
            model[raw].append(k)
        elif act == 'remove':
            f.remove_validator(fs[k], raw=raw)
            if k in model[raw]:
                model[raw].remove(k)
        elif raw is None:
            f.clear_validators()
            model[True], model[False] = [], []
        else:
            f.clear_validators(raw=raw)
            model[raw] = []
    for s, (f, model) in sides.items():
        for raw in (True, False):
            H.check([names[id(v)] for v in f.walk_validators(raw=raw)] == model[raw], 'each side has exactly its own validators')
    T = type(oblate.Schema)('T', (oblate.Schema,), {'b': b, '__module__': __name__})
    w.begin('op')
    T({'b': 1})
    H.check(sorted(c[1] for c in w.log if c[0] == 'val') == sorted(sides['b'][1][True] + sides['b'][1][False]), 'and runs them')
    H.cover('edited')


def binding(H):
    """A field object can be bound once; copies can be bound any number of times."""
    a = fields.Integer(load_key=H.choice('key', ('k', 'b')))
    S = type(oblate.Schema)('S', (oblate.Schema,), {'a': a, '__module__': __name__})
    x = H.int('x')
    how = H.choice('how', ('same name', 'other name', 'subclass', 'twice in one class'))
    if how == 'twice in one class':
        f = fields.Integer()
        ok, r = H.attempt(type(oblate.Schema), 'U', (oblate.Schema,), {'a': f, 'b': f, '__module__': __name__})
    elif how == 'subclass':
        ok, r = H.attempt(type(oblate.Schema), 'U', (S,), {'b': S.a, '__module__': __name__})
    else:
        ok, r = H.attempt(type(oblate.Schema), 'U', (oblate.Schema,), {'a' if how == 'same name' else 'b': S.a, '__module__': __name__})
    H.check(not ok and isinstance(r, RuntimeError), 'a field cannot be bound twice')
    H.check(a.schema is S and a.name == 'a', 'the original binding stays')
    ok, s = H.attempt(S, {a.load_key: x})
    H.check(ok and H.eq(s.a, x), 'the original keeps working')
    c1, c2 = S.a.copy(), S.a.copy()
    T = type(oblate.Schema)('T', (S,), {'c': c1, '__module__': __name__}) if H.flip('sub') else type(oblate.Schema)('T', (oblate.Schema,), {'c': c1, 'd': fields.Any(required=False), '__module__': __name__})
    V = type(oblate.Schema)('V', (oblate.Schema,), {'e': c2, '__module__': __name__})
    H.check((c1.schema, c1.name, c2.schema, c2.name) == (T, 'c', V, 'e'), 'copies are bound separately')
    H.check(V({a.load_key: x}).dump() == {'e': x}, 'the copy keeps its load key and has its own dump key')
    H.check(S({a.load_key: x}).dump() == {'a': x}, 'the original is unchanged')
    H.cover(how)


def routes(H):
    """Validators belong to the copy however they were registered with the original - in the class body too."""
    log = []

    def named(name):
        def f(schema, value, context):
            log.append((name, value, schema))
            if fails == name:
                raise ValueError('no ' + name)
        return f
    fails = H.choice('fails', (None, 'param', 'added', 'by field', 'by name', 'object'))
    raw = H.flip('raw')
    routes = [r for r in ('param', 'added', 'by field', 'by name', 'object') if H.flip('has ' + r)]

    class V(validate.Validator, raw=raw):
        def validate(self, value, context):
            named('object')(context.schema, value, context)
    a = Pass(validators=[named('param')] if 'param' in routes else [], required=False)
    if 'added' in routes:
        a.add_validator(named('added'), raw=raw)
    if 'object' in routes:
        a.add_validator(V())
    ns = {'__module__': __name__, 'a': a}
    if 'by field' in routes:
        ns['check_field'] = validate.field(a, raw=raw)(named('by field'))
    if 'by name' in routes:
        ns['check_name'] = validate.field('a', raw=raw)(named('by name'))
    early = a.copy()
    S = type(oblate.Schema)('S', (oblate.Schema,), ns)
    when = H.choice('when', ('before', 'after', 'twice', 'from another schema'))
    b = {'before': lambda: early, 'after': lambda: S.a.copy(), 'twice': lambda: S.a.copy().copy(),
         'from another schema': lambda: type(oblate.Schema)('M', (oblate.Schema,), {'__module__': __name__, 'm': S.a.copy()}).m.copy()}[when]()
    want = [r for r in routes if when != 'before' or r in ('param', 'added', 'object')]
    for k in (False, True):
        n = len([r for r in want if (raw if r != 'param' else False) == k])
        H.check(len(list(b.walk_validators(raw=k))) == n, 'the copy lists the validators')
    T = type(oblate.Schema)('T', (oblate.Schema,), {'__module__': __name__, 'b': b})
    v = H.value('v', NONNULL)
    op = H.choice('op', ('load', 'update', 'set'))
    t = T({})
    ok, r = H.attempt(T, {'b': v}) if op == 'load' else H.attempt(t.update, {'b': v}) if op == 'update' else H.attempt(setattr, t, 'b', v)
    H.check(sorted(x[0] for x in log) == sorted(want), 'every validator runs once for the copy')
    H.check(all([x[1] is v and type(x[2]) is T for x in log]), 'with its value and schema')
    H.check(ok is (fails not in want), 'and rejects as for the original')
    if not ok:
        H.check(len(r.errors) == 1 and r.errors[0].field is b, 'with the field of the copy')
        H.cover('rejected')
    else:
        H.cover('accepted')
    log.clear()
    H.attempt(S, {'a': v})
    H.check(sorted(x[0] for x in log) == sorted(routes), 'the original keeps its own')


behaviour.covers = ('valid', 'invalid', 'used')
builtin.covers = ('accepted', 'rejected')
routes.covers = ('accepted', 'rejected')
edits.covers = ('edited',)
binding.covers = ('same name', 'other name', 'subclass', 'twice in one class')
SCENARIOS = dict(routes=routes, behaviour=behaviour, builtin=builtin, edits=edits, binding=binding)
