"""C36: unsupported types are accepted with the warning that is configured; supported ones never warn."""
import types
import typing
import warnings
import oblate
from oblate import fields
from oblate.configs import GlobalConfig
from common import *

BOUNDS = ('histories of up to 3 (thorough: 4) steps - setting the option (also to a value of any kind), replacing the configuration, validating - over fresh unsupported '
          'expressions (type variables, new types, generic classes, protocols, forward references, two in one expression) at the listed positions, and every value of the listed '
          'kinds with up to 2 elements; supported expressions: the listed ones, every value of the listed kinds')
ASSUMPTIONS = ['the warning filters let every warning through']
SCALARS = ('none', 'bool', 'int', 'float', 'str')
ANY = Spec(SCALARS + ('list', 'tuple', 'set', 'dict', 'obj'), elem=Spec(('int', 'str')), key=Spec(('str',)), maxlen=2)


def guarded(f):
    """Runs a scenario and puts the global configuration back, whatever happens."""
    def run(H):
        saved = oblate.config
        warn = saved.warn_unsupported_types
        try:
            f(H)
        finally:
            oblate.config = saved
            saved.warn_unsupported_types = warn
    return run


def fresh(kind, name):
    """An expression that was never used before, which is not supported, and the name to be expected in the warning."""
    if kind == 'variable':
        return typing.TypeVar(name)
    if kind == 'new type':
        return typing.NewType(name, int)
    if kind == 'protocol':
        return type(typing.Protocol)(name, (typing.Protocol,), {'__annotations__': {'x': int}, '__module__': __name__})
    T = typing.TypeVar('T')
    return types.new_class(name, (typing.Generic[T],))[int]


def watched(f, *args):
    """f() and the warnings given meanwhile."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        ok, r = f(*args)
    return ok, r, [w for w in caught]


KINDS = ('variable', 'new type', 'protocol', 'generic')
# position: expression for T, value for v, is T looked at for v
POSITIONS = {
    'whole': (lambda t: t, lambda H, v: v, lambda H, v: True),
    'item': (lambda t: typing.List[t], lambda H, v: [v, v], lambda H, v: True),
    'no item': (lambda t: typing.List[t], lambda H, v: [], lambda H, v: False),
    'value': (lambda t: typing.Dict[str, t], lambda H, v: {'x': v}, lambda H, v: True),
    'key': (lambda t: typing.Dict[t, typing.Any], lambda H, v: {'x': v}, lambda H, v: True),
    'second': (lambda t: typing.Tuple[int, t], lambda H, v: (1, v), lambda H, v: True),
    'last alternative': (lambda t: typing.Union[int, t], lambda H, v: v, lambda H, v: H.Not(isinstance(v, int))),
    'first alternative': (lambda t: typing.Union[t, int], lambda H, v: v, lambda H, v: True),
    'optional item': (lambda t: typing.Sequence[typing.Optional[t]], lambda H, v: (v,), lambda H, v: v is not None or None),
    'typed dict': (lambda t: typing.TypedDict('D', {'x': t, 'y': int}), lambda H, v: {'x': v, 'y': 1}, lambda H, v: True),
}


@guarded
def history(H):
    """The warning is given once for each unsupported type that is met while the option is on, and never while it is off."""
    kind = H.choice('kind', KINDS)
    ts = [fresh(kind, 'Fresh%d' % i) for i in range(2)]
    make, wrap, met = POSITIONS[H.choice('position', tuple(POSITIONS))]
    exprs = [make(t) for t in ts]
    v = H.value('v', Spec(('none', 'int', 'str')))
    how = H.choice('how', ('function', 'field'))

    class S(oblate.Schema):
        a = fields.TypeExpr(exprs[0], none=True)
        b = fields.TypeExpr(exprs[1], none=True, required=False)
    oblate.config.warn_unsupported_types = True
    on, warned = True, set()
    for i in range(H.bound(3, 4)):
        op = H.choice('op%d' % i, ('use', 'other', 'on', 'off', 'replace', 'refuse') if i else ('use', 'off', 'replace'))
        if op in ('on', 'off'):
            oblate.config.warn_unsupported_types = on = op == 'on'
        elif op == 'replace':
            on = H.flip('new%d' % i)
            oblate.config = GlobalConfig(warn_unsupported_types=on) if not on or H.flip('given') else GlobalConfig()
        elif op == 'refuse':
            ok, r = H.attempt(setattr, oblate.config, 'warn_unsupported_types', H.choice('wrong', (None, 1, 'yes')))
            H.check(not ok and isinstance(r, TypeError), 'only booleans are accepted')
        else:
            k = 0 if op == 'use' else 1
            val = wrap(H, v)
            if how == 'function':
                ok, r, caught = watched(lambda: H.attempt(oblate.validate_types, {'k': exprs[k]}, {'k': val}))
            else:
                ok, r, caught = watched(lambda: H.attempt(S, {'a': val} if k == 0 else {'a': None, 'b': val}))
            H.check(ok, 'everything is accepted for an unsupported type')
            skipped = how == 'field' and val is None
            if how == 'field' and k:
                H.cover('two fields')
            looked = met(H, v)
            if looked is None or skipped:
                looked = False if skipped else v is not None
                # the order of the members of an Optional decides whether the type is looked at for None
                if not skipped and v is None:
                    warned.add(k)
                    continue
            if on and k not in warned and looked:
                H.check(len(caught) == 1, 'one warning for the first use of an unsupported type')
                H.check(issubclass(caught[0].category, UserWarning) and ('Fresh%d' % k) in str(caught[0].message), 'the warning names the type')
                warned.add(k)
                H.cover('warned')
            else:
                H.check(not caught, 'no warning')
                H.cover('off' if not on else 'silent')
        H.check(oblate.config.warn_unsupported_types is on, 'the option reads back')


history.covers = ('warned', 'off', 'silent', 'two fields')


@guarded
def refused(H):
    """Whatever is no boolean is refused by the option and by the constructor, and nothing changes."""
    on = H.flip('on')
    oblate.config.warn_unsupported_types = on
    v = H.value('v', ANY)
    new = H.flip('new')
    before = oblate.config
    ok, r = H.attempt(lambda: GlobalConfig(warn_unsupported_types=v)) if new else H.attempt(setattr, oblate.config, 'warn_unsupported_types', v)
    H.check(H.iff(ok, isinstance(v, bool)), 'exactly booleans are accepted')
    if ok:
        H.check(H.eq((r if new else oblate.config).warn_unsupported_types, v), 'the option is what was given')
        H.cover('accepted')
    else:
        H.check(isinstance(r, TypeError), 'refused with TypeError')
        H.cover('refused')
    if new or not ok:
        H.check(oblate.config is before and oblate.config.warn_unsupported_types is on, 'the configuration in use is unchanged')
    H.check(oblate.config.validation_error_cls is oblate.ValidationError, 'the other option is unchanged')
    want = on if new or not ok else True if v == True else False
    t = fresh('variable', 'Fresh')
    ok, r, caught = watched(lambda: H.attempt(oblate.validate_types, {'k': t}, {'k': 1}))
    H.check(ok and len(caught) == (1 if want else 0), 'warned as configured')


refused.covers = ('accepted', 'refused')


class TD(typing.TypedDict, total=False):
    x: int
    y: typing.List[str]


SUPPORTED = (int, str, float, bool, bytes, object, type(None), None.__class__, Exception, typing.Any, typing.Union[int, str], typing.Optional[str], int | None,
             typing.Literal['x', 1], typing.List[int], list[int], typing.List, typing.Set[str], typing.Set, set[int], typing.Tuple[int, str], typing.Tuple[int, ...], typing.Tuple,
             tuple[()], typing.Dict[str, int], typing.Dict, dict[str, typing.Any], typing.Mapping[str, int], typing.Mapping, typing.Sequence[int], typing.Sequence, TD,
             typing.List[typing.Dict[str, typing.Union[int, typing.List[str]]]], typing.Optional[typing.List[typing.Optional[int]]], typing.Sequence[typing.Literal['x']])


@guarded
def supported(H):
    """No warning for the documented types, whatever the value."""
    oblate.config.warn_unsupported_types = True
    t = SUPPORTED[H.choice('type', tuple(range(len(SUPPORTED))))]
    v = H.value('v', ANY)
    how = H.choice('how', ('function', 'field', 'list'))
    if how == 'function':
        ok, r, caught = watched(lambda: H.attempt(oblate.validate_types, {'k': t}, {'k': v}))
    else:
        class S(oblate.Schema):
            k = fields.TypeExpr(t) if how == 'field' else fields.List(t)
        ok, r, caught = watched(lambda: H.attempt(S, {'k': v if how == 'field' else [v]}))
    H.check(not caught, 'documented types never warn')
    H.check(ok or isinstance(r, (oblate.TypeValidationError, oblate.ValidationError)), 'validated')
    H.cover('accepted' if ok else 'rejected')


supported.covers = ('accepted', 'rejected')


@guarded
def many(H):
    """Several unsupported types in one expression, over several values: one warning each."""
    n = H.choice('n', (1, 2, 3))
    kinds = [H.choice('kind%d' % i, KINDS[:2] if i else KINDS) for i in range(2)]
    t, u = fresh(kinds[0], 'FreshT'), fresh(kinds[1], 'FreshU')
    on = H.flip('on')
    oblate.config.warn_unsupported_types = on
    form = H.choice('form', ('dict', 'tuple', 'nested', 'two keys', 'schemas'))
    vs = [H.value('v%d' % i, Spec(('none', 'int', 'str'))) for i in range(n)]
    rounds = []
    for _ in range(2):
        if form == 'dict':
            f = lambda: H.attempt(oblate.validate_types, {'k': typing.Dict[t, u]}, {'k': {'k%d' % i: v for i, v in enumerate(vs)}})
        elif form == 'tuple':
            f = lambda: H.attempt(oblate.validate_types, {'k': typing.List[typing.Tuple[t, u]]}, {'k': [(v, v) for v in vs]})
        elif form == 'nested':
            f = lambda: H.attempt(oblate.validate_types, {'k': typing.List[typing.List[typing.Dict[str, t]]], 'l': u}, {'k': [[{'x': v}] for v in vs], 'l': 1})
        elif form == 'two keys':
            f = lambda: H.attempt(oblate.validate_types, {'k': t, 'l': u, 'm': t}, {'k': vs[0], 'l': vs[-1], 'm': 1})
        else:
            class S(oblate.Schema):
                k = fields.List(t)
                l = fields.Dict(str, u)
            f = lambda: H.attempt(S, {'k': list(vs), 'l': {'k%d' % i: v for i, v in enumerate(vs)}})
        rounds.append(watched(f))
    for j, (ok, r, caught) in enumerate(rounds):
        H.check(ok, 'accepted')
        texts = [str(w.message) for w in caught]
        if on and j == 0:
            H.check(len(texts) == 2 and len([x for x in texts if 'FreshT' in x]) == 1 and len([x for x in texts if 'FreshU' in x]) == 1, 'one warning for each type')
            H.cover('both')
        else:
            H.check(not texts, 'no warning')
            H.cover('none')


many.covers = ('both', 'none')
SCENARIOS = dict(history=history, refused=refused, supported=supported, many=many)
