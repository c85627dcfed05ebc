"""C28: the configured validation error class is what gets raised everywhere."""
import oblate
from oblate import fields
from oblate.configs import GlobalConfig
from common import *

BOUNDS = ('histories of 2 (thorough: 3) configuration steps - setting the option, replacing the configuration object, refused settings, creating '
          'configurations that are not installed - before and in the middle of any operation, failing in any way and at any depth')
ASSUMPTIONS = []


class E1(oblate.ValidationError):
    pass


class E2(E1):
    def raw(self):
        return ['custom', super().raw()]


class E3(oblate.ValidationError):
    """With more arguments and attributes of its own."""
    def __init__(self, errors, more=1):
        super().__init__(errors)
        self.more = more


class NotAtAll(Exception):
    pass


CLASSES = {'default': oblate.ValidationError, 'one': E1, 'two': E2, 'three': E3}
WRONG = {'int': int, 'exception': NotAtAll, 'field error': oblate.FieldError, 'instance': 5, 'none': None, 'name': 'ValidationError',
         'base': oblate.OblateException, 'function': len}


def guarded(f):
    """Runs a scenario and puts the global configuration back, whatever happens."""
    def run(H):
        saved = oblate.config
        cls = saved.validation_error_cls
        try:
            f(H)
        finally:
            oblate.config = saved
            saved.validation_error_cls = cls
    return run


def configure(H, step, current):
    """One configuration step; the class configured afterwards."""
    how = H.choice('how.' + step, ('set', 'replace', 'replace plain', 'refused', 'refused new', 'spare', 'other option', 'nothing'))
    if how == 'set':
        name = H.choice('cls.' + step, tuple(CLASSES))
        oblate.config.validation_error_cls = CLASSES[name]
        H.cover('set')
        return CLASSES[name]
    if how == 'replace':
        name = H.choice('cls.' + step, tuple(CLASSES))
        oblate.config = GlobalConfig(validation_error_cls=CLASSES[name])
        H.cover('replaced')
        return CLASSES[name]
    if how == 'replace plain':
        oblate.config = GlobalConfig()
        return oblate.ValidationError
    if how == 'refused':
        wrong = WRONG[H.choice('wrong.' + step, tuple(WRONG))]
        ok, r = H.attempt(setattr, oblate.config, 'validation_error_cls', wrong)
        H.check(not ok and isinstance(r, TypeError), 'refused with TypeError')
        H.cover('refused')
    elif how == 'refused new':
        wrong = WRONG[H.choice('wrong.' + step, tuple(WRONG))]
        ok, r = H.attempt(GlobalConfig, validation_error_cls=wrong)
        H.check(not ok and isinstance(r, TypeError), 'refused with TypeError')
    elif how == 'spare':
        spare = GlobalConfig(validation_error_cls=E3)
        spare.validation_error_cls = E2
        H.check(spare.validation_error_cls is E2, 'configurations are independent')
    elif how == 'other option':
        oblate.config.warn_unsupported_types = H.flip('warn.' + step)
    H.check(oblate.config.validation_error_cls is current, 'the configuration is unchanged')
    return current


FAILURES = ('unknown', 'missing', 'none', 'load', 'raw validator', 'validator', 'update', 'update unknown', 'set', 'set none', 'set validator', 'dump', 'nested', 'nested update', 'nested dump', 'deep')


class Inside(fields.Field):
    """Runs an operation of another schema while being processed and remembers what was raised."""
    def __init__(self, f, **kw):
        self.f = f
        super().__init__(**kw)

    def value_load(self, value, context):
        self.f()
        return value

    def value_dump(self, value, context):
        self.f()
        return value


class Fails(fields.Field):
    def value_load(self, value, context):
        if value == 'bad load':
            raise ValueError('load')
        return value

    def value_dump(self, value, context):
        if value == 'bad dump':
            raise ValueError('dump')
        return value


def schemas():
    class In(oblate.Schema):
        x = Fails(load_key='kx')

        @oblate.validate.field(x, raw=True)
        def raw_x(self, value, context):
            assert value != 'bad raw', 'raw'

        @oblate.validate.field(x)
        def check_x(self, value, context):
            assert value != 'bad val', 'val'

    class Mid(oblate.Schema):
        n = fields.Object(In)

    class Out(oblate.Schema):
        m = fields.Object(Mid)
    return In, Mid, Out


def failing(what, S):
    """A call that fails validation."""
    In, Mid, Out = S
    if what == 'unknown':
        return lambda: In({'kx': 1, 'u': 1})
    if what == 'missing':
        return lambda: In({})
    if what == 'none':
        return lambda: In({'kx': None})
    if what == 'load':
        return lambda: In({'kx': 'bad load'})
    if what == 'raw validator':
        return lambda: In({'kx': 'bad raw'})
    if what == 'validator':
        return lambda: In({'kx': 'bad val'})
    s = In({'kx': 1})
    if what == 'update':
        return lambda: s.update({'kx': 'bad load'})
    if what == 'update unknown':
        return lambda: s.update({'zz': 1})
    if what == 'set':
        return lambda: setattr(s, 'x', 'bad load')
    if what == 'set none':
        return lambda: setattr(s, 'x', None)
    if what == 'set validator':
        return lambda: setattr(s, 'x', 'bad val')
    if what == 'nested':
        return lambda: Mid({'n': {'kx': 'bad val'}})
    if what == 'nested update':
        m = Mid({'n': s})
        return lambda: m.update({'n': {}})
    if what == 'deep':
        return lambda: Out({'m': {'n': {'kx': None}}})
    d = In({'kx': 'bad dump'})
    if what == 'dump':
        return lambda: d.dump()
    m = Mid({'n': d})
    return lambda: m.dump()


def judged(H, ok, r, current):
    H.check(not ok, 'fails')
    H.check(type(r) is current, 'raised as the class currently configured')
    H.check(len(r.errors) == 1, 'with the error')
    if current is E3:
        H.check(r.more == 1, 'constructed from the errors')
    raw = r.raw()
    if current is E2:
        H.check(raw[0] == 'custom', 'the raw form is that of the class')
        raw = raw[1]
    H.check(isinstance(raw, dict) and len(raw) == 1, 'and knows the errors')


@guarded
def histories(H):
    S = schemas()
    current = oblate.config.validation_error_cls
    for step in H.bound(('1', '2'), ('1', '2', '3')):
        what = H.choice('fail.' + step, FAILURES if step == '1' else ('missing', 'update', 'set', 'nested dump', 'deep'))
        call = failing(what, S)
        current = configure(H, step, current)
        H.check(oblate.config.validation_error_cls is current, 'reads back')
        ok, r = H.attempt(call)
        judged(H, ok, r, current)


@guarded
def in_the_middle(H):
    """Configured by user code in the middle of an operation; nested operations raise it as well."""
    S = schemas()
    seen = []
    state = [oblate.config.validation_error_cls]
    what = H.choice('inner', FAILURES)
    call = failing(what, S)
    fail_after = H.flip('fail')

    def f():
        state[0] = configure(H, 'mid', state[0])
        ok, r = H.attempt(call)
        seen.append(r)
        judged(H, ok, r, state[0])
        if fail_after:
            raise ValueError('outer')

    class T(oblate.Schema):
        a = Inside(f)
        n = fields.Object(S[0], required=False)
    how = H.choice('how', ('construct', 'update', 'set', 'dump', 'validator'))
    armed = [True]
    g = f
    if how == 'construct':
        ok, r = H.attempt(T, {'a': 1})
    else:
        T.a.f = lambda: None
        t = T({'a': 1})
        if how == 'validator':
            T.a.add_validator(lambda schema, value, context: g())
            ok, r = H.attempt(t.update, {'a': 2})
        else:
            T.a.f = g
            ok, r = H.attempt(t.dump) if how == 'dump' else H.attempt(setattr, t, 'a', 2) if how == 'set' else H.attempt(t.update, {'a': 2})
    H.check(len(seen) == 1, 'ran once')
    if fail_after:
        judged(H, ok, r, state[0])
        H.cover('outer')
    else:
        H.check(ok, 'nothing failed in the outer operation')
        H.cover('inner')


@guarded
def frozen(H):
    """Other errors are not affected."""
    current = configure(H, '1', oblate.config.validation_error_cls)

    class S(oblate.Schema):
        a = fields.Any(frozen=True)
        b = fields.Any(required=False)
    s = S({'a': 1})
    ok, r = H.attempt(s.update, {'a': 1})
    H.check(not ok and type(r) is oblate.FrozenError, 'FrozenError')
    ok, r = H.attempt(lambda: s.b)
    H.check(not ok and isinstance(r, oblate.FieldNotSet if hasattr(oblate, 'FieldNotSet') else AttributeError), 'FieldNotSet')
    ok, r = H.attempt(S, [1])
    H.check(not ok and type(r) is TypeError, 'TypeError')
    ok, r = H.attempt(s.dump, include=['a'], exclude=['b'])
    H.check(not ok and type(r) is TypeError, 'TypeError')


@guarded
def many(H):
    """With several errors at several levels the configured class reports what the default class would."""
    seen = []
    op = H.choice('op', ('construct', 'update', 'dump'))
    name = H.choice('cls', tuple(CLASSES))
    for c in ('default', name):
        oblate.config.validation_error_cls = CLASSES[c]
        ok, r, want = wide(H, op, 2)
        if ok:
            H.check(not want, 'valid')
            return
        H.check(type(r) is CLASSES[c], 'the configured class')
        seen.append((oblate.ValidationError.raw(r), str(r), [e.key for e in r.errors], want))
    H.check(seen[0] == seen[1], 'with the same errors')
    judge_wide(H, False, ErrorLike(seen[1][0]), seen[1][3])


def ErrorLike(raw):
    e = oblate.ValidationError.__new__(oblate.ValidationError)
    e.raw = lambda: raw
    return e


many.covers = ('valid', 'invalid')
histories.covers = ('set', 'replaced', 'refused')
in_the_middle.covers = ('outer', 'inner')
SCENARIOS = dict(histories=histories, in_the_middle=in_the_middle, frozen=frozen, many=many)
