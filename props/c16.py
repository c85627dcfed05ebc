"""C16: TypedDict validation respects keys, requiredness and value types."""
import typing
import warnings
import typing_extensions as te
import oblate
from oblate import fields
from common import *

BOUNDS = ('the listed family of declarations (total, partial, Required/NotRequired, string annotations, functional syntax, inheritance with '
          'mixed totality, declarations of one name, nesting in and around containers) with up to 4 keys; every presence pattern; an optional unknown key that is any string; '
          'values of any of the listed kinds (containers up to 1 element); all dict and non-dict values')
ASSUMPTIONS = ['keys are strings or integers']


class A(typing.TypedDict):
    a: int
    b: str


class Part(typing.TypedDict, total=False):
    a: int
    b: str


class Marked(typing.TypedDict):
    a: int
    b: typing.NotRequired[str]
    c: typing.Required[typing.Optional[int]]


class PartMarked(te.TypedDict, total=False):
    a: te.Required[int]
    b: str
    c: te.NotRequired[typing.List[int]]


class Child(A, total=False):
    c: int


class Child2(Part):
    c: typing.Union[int, None]


class Grand(Child):
    d: str


class Grand2(PartMarked, total=False):
    d: typing.Required[int]


class Multi(Part, Marked):
    d: int


class Str(typing.TypedDict):
    a: 'int'
    b: 'typing.NotRequired[str]'
    c: 'typing.Optional[int]'


class StrPart(typing.TypedDict, total=False):
    a: 'typing.Required[int]'
    b: 'str'


class StrChild(StrPart):
    c: 'int'


class StrChild2(Str, total=False):
    d: 'typing.Required[str]'


Func = typing.TypedDict('Func', {'a': int, 'b': typing.NotRequired[str], 'not an identifier': int})
FuncPart = te.TypedDict('FuncPart', {'a': int, 'b': te.Required[str]}, total=False)


class Empty(typing.TypedDict):
    pass


class Any1(typing.TypedDict, total=False):
    a: typing.Any
    b: typing.Literal[1, 'x']


class Inner(typing.TypedDict, total=False):
    x: typing.Required[int]
    y: str


class Outer(typing.TypedDict):
    i: Inner
    l: typing.NotRequired[typing.List[Inner]]


class Rec(typing.TypedDict):
    v: int
    next: typing.Optional['Rec']


INT, STR, OINT, LINT, UN = 'int', 'str', 'oint', 'lint', 'oint'
DECLS = (
    (A, {'a': (INT, 1), 'b': (STR, 1)}), (Part, {'a': (INT, 0), 'b': (STR, 0)}),
    (Marked, {'a': (INT, 1), 'b': (STR, 0), 'c': (OINT, 1)}), (PartMarked, {'a': (INT, 1), 'b': (STR, 0), 'c': (LINT, 0)}),
    (Child, {'a': (INT, 1), 'b': (STR, 1), 'c': (INT, 0)}), (Child2, {'a': (INT, 0), 'b': (STR, 0), 'c': (UN, 1)}),
    (Grand, {'a': (INT, 1), 'b': (STR, 1), 'c': (INT, 0), 'd': (STR, 1)}),
    (Grand2, {'a': (INT, 1), 'b': (STR, 0), 'c': (LINT, 0), 'd': (INT, 1)}),
    (Str, {'a': (INT, 1), 'b': (STR, 0), 'c': (OINT, 1)}), (StrPart, {'a': (INT, 1), 'b': (STR, 0)}),
    (StrChild, {'a': (INT, 1), 'b': (STR, 0), 'c': (INT, 1)}), (StrChild2, {'a': (INT, 1), 'b': (STR, 0), 'c': (OINT, 1), 'd': (STR, 1)}),
    (Func, {'a': (INT, 1), 'b': (STR, 0), 'not an identifier': (INT, 1)}), (FuncPart, {'a': (INT, 0), 'b': (STR, 1)}),
    (Empty, {}), (Any1, {'a': ('any', 0), 'b': ('lit', 0)}),
)
VAL = Spec(('none', 'int', 'str', 'bool', 'list'), elem=Spec(('int', 'str')), maxlen=1)


def value_ok(H, v, k):
    if k == 'any':
        return True
    if k == 'int':
        return isinstance(v, int)
    if k == 'str':
        return isinstance(v, str)
    if k == 'oint':
        return H.Or(v is None, isinstance(v, int))
    if k == 'lit':
        return H.Or(H.eq(v, 1), H.eq(v, 'x'))
    return H.And(isinstance(v, list), *[isinstance(x, int) for x in v]) if isinstance(v, list) else False


def violations(H, decl, pairs):
    """Names of the violated keys (decides the verdict of every present value)."""
    bad = []
    for k, v in pairs:
        for n in decl:
            if k == n:
                if not value_ok(H, v, decl[n][0]):
                    bad.append(k)
                break
        else:
            bad.append(k)
    for n in decl:
        if decl[n][1] and not H.Or(*[H.eq(k, n) for k, _ in pairs]):
            bad.append(n)
    return bad


def judge(H, t, v):
    """None, or the list of messages."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ok, r = H.attempt(oblate.validate_types, {'k': t}, {'k': v})
    if ok:
        return None
    H.check(isinstance(r, oblate.TypeValidationError), 'a rejection is a TypeValidationError, got ' + type(r).__name__)
    H.check(list(r.errors) == ['k'] and len(r.errors['k']) > 0, 'messages for the key')
    return r.errors['k']


def verdict(H, msgs, bad):
    if bad:
        H.check(msgs is not None, 'a violating dictionary is rejected')
        H.check(len(msgs) == len(bad), 'every violation is reported once')
        for k in bad:
            H.check(H.Or(*[H.contains(m, repr(k)) for m in msgs]), 'every violated key is named')
        H.cover('rejected')
        if len(bad) > 1:
            H.cover('several')
    else:
        H.check(msgs is None, 'a conforming dictionary is accepted')
        H.cover('accepted')


def declarations(H):
    t, decl = DECLS[H.choice('decl', tuple(range(len(DECLS))))]
    pairs = [(k, H.value('v.' + k, VAL)) for k in decl if H.flip('has.' + k)]
    if H.flip('extra'):
        pairs.append((H.choice('extra.key', ('z', 'A', 5, '')), H.value('extra.value', VAL)))
    order = H.flip('reversed')
    if order:
        pairs = pairs[::-1]
    v = dict(pairs)
    verdict(H, judge(H, t, v), violations(H, decl, pairs))
    H.check(list(v) == [k for k, _ in pairs] and all(v[k] is x for k, x in pairs), 'the dictionary is not modified')


WIDE = typing.TypedDict('WIDE', {'k%d' % i: (int if i % 2 else typing.NotRequired[int]) for i in range(17)})
WIDE_DECL = {'k%d' % i: (INT, bool(i % 2)) for i in range(17)}


def large(H):
    """Typed dictionaries of many keys: every key counts."""
    pairs = {'k%d' % i: i for i in range(17)}
    spots = (0, 1, 4, 7, 8, 15, 16)
    at = H.choice('bad', (None,) + spots)
    if at is not None:
        pairs['k%d' % at] = H.value('v', VAL)
    at = H.choice('absent', (None,) + spots)
    if at is not None:
        pairs.pop('k%d' % at)
    for i in range(H.choice('unknown', (0, 1, 6))):
        pairs['u%d' % i] = i
    if H.flip('reversed'):
        pairs = {k: pairs[k] for k in list(pairs)[::-1]}
    verdict(H, judge(H, WIDE, pairs), violations(H, WIDE_DECL, list(pairs.items())))


def any_key(H):
    """A key that is any string whatsoever."""
    H.universe('a', 'b', 'c', 'd')
    t, decl = H.choice('decl', ((A, DECLS[0][1]), (Part, DECLS[1][1]), (StrChild, DECLS[10][1])))
    pairs = [(H.str('k1'), H.value('v1', Spec(('int', 'str'))))]
    if H.flip('two'):
        pairs.append((H.str('k2'), H.value('v2', Spec(('int', 'str')))))
    v = mapping(H, pairs)
    bad = judge(H, t, v)
    exp = violations(H, decl, pairs)
    if exp:
        H.check(bad is not None and len(bad) == len(exp), 'every violation is reported')
        H.cover('rejected')
    else:
        H.check(bad is None, 'accepted')
        H.cover('accepted')


def containers(H):
    """Only dictionaries are accepted."""
    t, decl = H.choice('decl', ((Part, DECLS[1][1]), (Empty, {}), (A, DECLS[0][1])))
    v = H.value('v', Spec(('none', 'int', 'str', 'list', 'tuple', 'set', 'dict', 'mapping', 'dictsub', 'obj', 'bool'), elem=Spec(('int', 'str')), key=Spec(('str',), strings=('a', 'b', 'z')), maxlen=2))
    H.universe('a', 'b', 'z')
    msgs = judge(H, t, v)
    if not isinstance(v, dict):
        H.check(msgs is not None, 'a value that is not a dictionary is rejected')
        H.cover('rejected')
        return
    bad = violations(H, decl, list(v.items()))
    H.check((msgs is None) == (not bad), 'accepted exactly when it conforms')
    H.cover('accepted' if not bad else 'rejected')


def inner_bad(H, d):
    return violations(H, {'x': (INT, 1), 'y': (STR, 0)}, list(d.items()))


def nested(H):
    def inner(n):
        if n == 'i' and H.flip('i.notdict'):
            return H.value(n, Spec(('none', 'str', 'list'), maxlen=0))
        d = {k: H.value(n + '.' + k, Spec(('int', 'str'))) for k in ('x', 'y') if H.flip(n + '.has' + k)}
        if n == 'i' and H.flip(n + '.extra'):
            d['q'] = 1
        return d
    d = {'i': inner('i')}
    bad = []
    if not isinstance(d['i'], dict) or inner_bad(H, d['i']):
        bad.append('i')
    if H.flip('l'):
        d['l'] = [inner('l%d' % i) for i in range(H.choice('l.n', (1, 0, 2) if H.thorough else (1, 0)))]
        if any([bool(inner_bad(H, x)) for x in d['l']]):
            bad.append('l')
    where = H.choice('where', ('top', 'list', 'dict', 'optional'))
    if where == 'top':
        verdict(H, judge(H, Outer, d), bad)
    else:
        tt, vv = {'list': (typing.List[Outer], [d]), 'dict': (typing.Dict[str, Outer], {'q': d}), 'optional': (typing.Optional[Outer], d)}[where]
        H.check((judge(H, tt, vv) is None) == (not bad), 'typed dictionaries inside other expressions')


def recursive(H):
    n = H.bound(3, 5)
    depth = H.choice('depth', tuple(range(n)))
    d, good = None, []
    for i in range(depth + 1):
        x = H.value('v%d' % i, Spec(('int', 'str')))
        good.append(isinstance(x, int))
        e = {'v': x}
        if H.flip('next%d' % i) or i > 0:
            e['next'] = d
        else:
            good.append(False)
        d = e
    msgs = judge(H, Rec, d)
    H.check(H.iff(msgs is None, H.And(*good)), 'recursive declarations are checked at every depth')
    H.cover('accepted' if msgs is None else 'rejected')


def repeated(H):
    """One verdict does not influence the next (the declarations stay intact), and fields use the same rules."""
    t, decl = DECLS[H.choice('decl', (2, 3, 10))]
    full = {'a': 1, 'b': 'x', 'c': [1] if t is PartMarked else 1}
    pairs = [(k, full[k]) for k in decl if H.flip('has.' + k)]
    bad = violations(H, decl, pairs)
    for _ in range(2):
        H.check((judge(H, t, dict(pairs)) is None) == (not bad), 'same verdict every time')
        H.check(judge(H, t, full) is None, 'a full dictionary is accepted every time')

    class S(oblate.Schema):
        k = fields.TypedDict(t)
    v = dict(pairs)
    ok, r = H.attempt(S, {'k': v})
    H.check(ok == (not bad), 'the field decides the same')
    if ok:
        H.check(r.k is v, 'the dictionary is stored as it is')
    H.cover('accepted' if ok else 'rejected')


def twins(H):
    """Declarations of one name and module are told apart, whatever was validated before."""
    shapes = ({'a': int}, {'a': str}, {'a': int, 'b': str}, {'b': int})
    kinds = {int: 'int', str: 'str'}
    made = [(typing.TypedDict('Twin', d, total=total), {k: (kinds[x], total) for k, x in d.items()}) for d in shapes for total in (True, False)]
    for t, _ in made:
        t.__qualname__ = 'Twin'
        t.__module__ = __name__
    for n in range(2):
        t, decl = made[H.choice('decl.%d' % n, tuple(range(len(made))))]
        pairs = [(k, H.choice(k, (1, 's'))) for k in ('a', 'b') if H.flip('has.' + k)]
        verdict(H, judge(H, t, dict(pairs)), violations(H, decl, pairs))


Odd = typing.TypedDict('Odd', {'1': int, 'None': typing.NotRequired[int], 'a': int, 'True': typing.NotRequired[int], ' a': typing.NotRequired[str], 'A': typing.NotRequired[str], '': typing.NotRequired[int],
                               "b'a'": typing.NotRequired[int], '_b': typing.NotRequired[int]})
ODD = {'1': (INT, 1), 'None': (INT, 0), 'a': (INT, 1), 'True': (INT, 0), ' a': (STR, 0), 'A': (STR, 0), '': (INT, 0), "b'a'": (INT, 0), '_b': (INT, 0)}


def odd_keys(H):
    """Keys are told apart by equality: those that look like a declared one are unknown."""
    v = {'a' if not H.flip('sub') else Text('a'): H.value('a', Spec(('int', 'str')))} if H.flip('has a') else {}
    if H.flip('has 1'):
        v['1'] = 4
    v[H.choice('first', ODD_KEYS)] = H.value('v', Spec(('int', 'str')))
    if H.flip('another'):
        v[H.choice('second', ODD_KEYS)] = 5
    verdict(H, judge(H, Odd, v), violations(H, ODD, list(v.items())))


odd_keys.covers = ('accepted', 'rejected', 'several')
twins.covers = ('accepted', 'rejected', 'several')
large.covers = declarations.covers = ('accepted', 'rejected', 'several')
for f in (any_key, containers, recursive, repeated):
    f.covers = ('accepted', 'rejected')
nested.covers = ('accepted', 'rejected')
SCENARIOS = dict(declarations=declarations, any_key=any_key, containers=containers, nested=nested, recursive=recursive, repeated=repeated, large=large, twins=twins, odd_keys=odd_keys)
