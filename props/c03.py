"""C03: loaded fields hold the deserialized value, the default, or nothing."""
import oblate
import model
from oblate import fields
from common import *

BOUNDS = 'schemas of 1-4 fields (flat, inherited); values/defaults/results of kind None, bool, int, str; default callables; two constructions'
ASSUMPTIONS = ['a default callable is called with the schema context and the field and returns a value of kind None/bool/int/str']


def read(H, s, name):
    """Reads through the attribute and through get_value_for; both must agree."""
    ok, r = H.attempt(getattr, s, name)
    ok2, r2 = H.attempt(s.get_value_for, name)
    H.check(ok == ok2, 'attribute and get_value_for agree')
    if not ok:
        H.check(isinstance(r, oblate.FieldNotSet) and isinstance(r2, oblate.FieldNotSet), 'unset fields raise FieldNotSet')
        return UNSET
    H.check(H.same(r, r2), 'attribute and get_value_for agree on the value')
    return r


def expect(H, s, name, want):
    got = read(H, s, name)
    if want is UNSET:
        H.cover('unset')
        H.check(got is UNSET, 'an absent optional field without default is unset')
    else:
        H.cover('set')
        H.check(got is not UNSET, 'the field must be set')
        H.check(H.same(got, want), 'the field holds the deserialized value or the default')


def loading(H):
    """Supplied, absent, None, with defaults of every kind."""
    w = World(H, ('ok',))
    da, db = H.value('def.a', ANY), H.value('def.b', ANY)
    descr = [F('a', none=True, default=da if H.flip('a.hasdef') else UNSET, required=H.bool('a.req')),
             F('b', 'kb', none=True, default=db if H.flip('b.hasdef') else UNSET, required=False),
             F('c', 'b', none=True, required=False, vals=('vc',), raws=('rc',))]
    entries = [(f.key, H.value('v.' + f.name, INPUT)) for f in descr if H.flip('has.' + f.name)]
    if H.flip('reversed'):
        entries.reverse()
    cls = make_schema(w, descr)
    p = predict(w, descr, entries, 'op', False)
    w.begin('op')
    ok, s = w.attempt(cls, dict(entries))
    H.check(ok == p.ok, 'constructs exactly when valid')
    if ok:
        for f in descr:
            expect(H, s, f.name, p.values.get(f.name, UNSET))
        H.out('state', {n: v for n, v in state_of(s, 'abc').items() if v is not UNSET})


def callables(H):
    """Default callables: once per construction, with the schema context and the field; never for supplied values."""
    w = World(H, ('ok',))
    calls = []

    def make(name):
        def default(ctx, field):
            calls.append((name, ctx, field))
            return H.value('defres.%s.%s' % (name, w.op), ANY)
        return default
    kinds = {n: H.choice('kind.' + n, ('callable', 'value')) for n in 'ab'}
    vals = {n: H.value('def.' + n, ANY) for n in 'ab'}
    dfl = {n: make(n) if kinds[n] == 'callable' else vals[n] for n in 'ab'}
    cls = make_schema(w, [F('a', none=True, default=dfl['a']), F('b', 'kb', none=True, default=dfl['b']), F('c', required=False)])
    n = H.choice('times', (1, 2))
    for op in ('one', 'two')[:n]:
        has = {x: H.flip('has.%s.%s' % (x, op)) for x in 'ab'}
        w.begin(op)
        del calls[:]
        data = {}
        if has['a']:
            data['a'] = H.value('v.a.' + op, INPUT)
        if has['b']:
            data['kb'] = H.value('v.b.' + op, INPUT)
        s = cls(data)
        exp = [x for x in 'ab' if not has[x] and kinds[x] == 'callable']
        H.check(sorted(c[0] for c in calls) == exp, 'each default callable of an absent field is called once, others never')
        for name, ctx, field in calls:
            H.check(ctx is s.context and ctx.schema is s, 'the callable gets the schema context')
            H.check(field is getattr(cls, name), 'the callable gets the field')
        for x in 'ab':
            v = data.get('a' if x == 'a' else 'kb')
            if has[x]:
                want = None if v is None else w.result('load', x, op)
                H.cover('supplied')
            else:
                want = H.value('defres.%s.%s' % (x, op), ANY) if kinds[x] == 'callable' else vals[x]
                H.cover('defaulted')
            expect(H, s, x, want)
        expect(H, s, 'c', UNSET)
    H.check(cls.a.has_default() and cls.b.has_default() and not cls.c.has_default(), 'has_default tells the fields with default')


def callable_kinds(H):
    """Every kind of callable is called; a class that is given as default is called too."""
    import functools
    calls = []
    res = H.value('res', ANY)

    def plain(ctx, field):
        calls.append((ctx, field))
        return res

    class Obj:
        def __call__(self, ctx, field):
            return plain(ctx, field)

        def method(self, ctx, field):
            return plain(ctx, field)

        @classmethod
        def cls(c, ctx, field):
            return plain(ctx, field)

        @staticmethod
        def static(ctx, field):
            return plain(ctx, field)

    class Made:
        def __init__(self, ctx, field):
            calls.append((ctx, field))
    kind = H.choice('kind', ('function', 'lambda', 'object', 'method', 'classmethod', 'static', 'partial', 'partial keyword', 'varargs', 'class', 'builtin'))
    d = {'function': plain, 'lambda': lambda c, f: plain(c, f), 'object': Obj(), 'method': Obj().method, 'classmethod': Obj.cls, 'static': Obj.static, 'partial': functools.partial(plain),
         'partial keyword': functools.partial(lambda c, f, k: plain(c, f), k=1), 'varargs': lambda *a: plain(*a), 'class': Made, 'builtin': None}[kind]
    if kind == 'builtin':
        d = functools.lru_cache(None)(plain)

    class S(oblate.Schema):
        a = fields.Any(none=True, default=d, load_key=H.choice('key', ('a', 'A')))
        b = fields.Any(required=False)
    has = H.flip('has')
    for n in (1, 2):
        del calls[:]
        s = S({S.a.load_key: 5} if has else {'b': 1})
        H.check(len(calls) == (0 if has else 1), 'called once per construction without the value')
        if not has:
            H.check(calls[0][0] is s.context and calls[0][1] is S.a, 'with the schema context and the field')
            H.check(type(s.a) is Made if kind == 'class' else H.same(s.a, res), 'and the field holds what it returned')
        else:
            H.check(s.a == 5, 'the supplied value')
        s.update({})
        s.b = 3
        H.check(len(calls) == (0 if has else 1), 'never again')
    H.cover('called' if not has else 'supplied')


def inherited(H):
    """Defaults and values in subclasses that redefine fields."""
    w = World(H, ('ok',))
    da, db, dc = H.value('def.a', ANY), H.value('def.b', ANY), H.value('def.c', ANY)
    base = make_schema(w, [F('a', 'ka', none=True, default=da), F('b', none=True, default=db)], 'Base')
    redefined = H.choice('redefined', ('no', 'default', 'nodefault'))
    own = [F('c', none=True, default=dc)]
    if redefined == 'default':
        own.append(F('a', none=True, default=dc))
    elif redefined == 'nodefault':
        own.append(F('a', none=True, required=False))
    sub = make_schema(w, own, 'Sub', base=base)
    which = H.choice('which', ('base', 'sub'))
    cls = base if which == 'base' else sub
    akey = 'ka' if which == 'base' or redefined == 'no' else 'a'
    data = {}
    if H.flip('has.a'):
        data[akey] = H.value('v.a', INPUT)
    if H.flip('has.b'):
        data['b'] = H.value('v.b', INPUT)
    w.begin('op')
    s = cls(data)
    for n, key, d in (('a', akey, da if which == 'base' or redefined == 'no' else dc if redefined == 'default' else UNSET), ('b', 'b', db)):
        if key in data:
            expect(H, s, n, None if data[key] is None else w.result('load', n))
        else:
            expect(H, s, n, d)
    if which == 'sub':
        expect(H, s, 'c', dc)


def falsy(H):
    """Built-in fields: falsy values and defaults."""
    v = H.value('v', Spec(('none', 'bool', 'int', 'str', 'float'), ints=(-1, 1), strings=('', 'x'), floats=(-1, 1)))
    d = H.value('d', Spec(('none', 'bool', 'int', 'str', 'float'), ints=(-1, 1), strings=('', 'x'), floats=(-1, 1)))

    class S(oblate.Schema):
        a = fields.Any(none=True, default=d)
        b = fields.Any(none=True, required=False)
    has = H.choice('has', ('a', 'b', 'both', 'none'))
    data = {'a': {'a': v}, 'b': {'b': v}, 'both': {'a': v, 'b': v}, 'none': {}}[has]
    s = S(data)
    expect(H, s, 'a', v if has in ('a', 'both') else d)
    expect(H, s, 'b', v if has in ('b', 'both') else UNSET)
    H.out('a', s.a)


loading.covers = ('set', 'unset')
callables.covers = ('supplied', 'defaulted')
callable_kinds.covers = ('called', 'supplied')
inherited.covers = falsy.covers = ('set',)
SCENARIOS = dict(loading=loading, callables=callables, inherited=inherited, falsy=falsy, callable_kinds=callable_kinds)

SCENARIOS.update(
    deviations=model.run(('values',), model.FIELD + model.DATA + model.USER + ('state', 'dumpkeys'), (), (3, 4), ('ok', 'value')),
    absent=model.run(('values',), model.FIELD + model.DATA + model.USER + ('state', 'dumpkeys'), (), (2, 3), ('ok', 'value'), base={'default.a': 'callable', 'default.b': 'class'}, free=('has', 'value')),
    scale=scale(('values',), ('construct',)),
)
