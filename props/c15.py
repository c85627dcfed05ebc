"""C15: type expressions accept exactly the conforming values."""
import abc
import collections
import enum
import collections.abc as cabc
import typing
import warnings
import oblate
from oblate import fields
from common import *
from sx.kinds import Obj

BOUNDS = ('a grammar of expressions (listed in the module: atoms, every constructor over the small atoms, selected (thorough: all unary) '
          'compositions of two levels) against every value of the listed kinds with up to 2 (thorough: 3) elements per container and two '
          'levels of nesting; containers of up to 5 (thorough: 7) elements for the position scenario, of 7 and 40 (thorough: 130) with one or two bad elements at '
          'chosen positions for the long one; nesting depth up to 6 (thorough: 8) of alternating constructors; unions of 8 and literals of 18 members')
ASSUMPTIONS = ['elements of sets and keys of mappings are hashable scalars']

T = typing.TypeVar('T')
UserId = typing.NewType('UserId', int)


class P:
    pass


class Ch(P):
    pass


class Even(abc.ABC):
    """isinstance() decided by a virtual subclass."""


class Gen(typing.Generic[T]):
    pass


class Proto(typing.Protocol):
    x: int


Even.register(P)
NT = type(None)
ANYD = ('any',)


def c(t):
    return 'cls', t


def lit(*a):
    return 'lit', a


def un(*ds):
    return 'union', ds


UNSUPPORTED = (T, typing.Callable[[int], int], typing.Callable, typing.Type[int], typing.Iterable[int], typing.FrozenSet[int], UserId,
               Gen[int], Proto, 'int', typing.ForwardRef('int'), typing.Annotated[int, 'x'], typing.Deque[int], frozenset[int],
               typing.Iterator[str], typing.DefaultDict[str, int])


class Judge:
    """No class, though isinstance() would take it."""

    def __instancecheck__(self, x):
        return False


NOTYPES = ((int, str), (), (int, (str, float)), [int], {'k': int}, {int}, Judge(), 5, typing.Union, typing.Callable[[int], typing.Any])
ATOMS = [ANYD, c(int), c(str), c(bool), c(float), c(NT), c(list), c(dict), c(set), c(tuple), c(object), c(Obj),
         c(cabc.Mapping), c(cabc.Hashable), lit(1), lit('a'), lit('a', 'b'), lit(True), lit(None), lit(0, 'a', None), lit(2, True)]
SMALL = [c(int), c(str), ANYD, lit('a', 1), un(c(int), c(NT))]
UNARY = ('list', 'set', 'seq', 'tuple*', 'tuple1', 'opt')
PAIRS = [(c(int), c(str)), (c(str), ANYD), (ANYD, c(int)), (lit('a', 1), un(c(int), c(NT)))]


def mk(op, *ds):
    if op == 'opt':
        return un(ds[0], c(NT))
    if op == 'tuple1':
        return ('tuple', ds)
    return (op,) + ds


BARE = [('bare', t) for t in (typing.List, typing.Set, typing.Tuple, typing.Dict, typing.Mapping, typing.Sequence)]
LEVEL1 = ([mk(op, d) for op in UNARY for d in SMALL] + [('dict',) + p for p in PAIRS] + [('mapping',) + p for p in PAIRS]
          + [('tuple', p) for p in PAIRS] + [un(*p) for p in PAIRS] + BARE + [('tuple', ())]
          + [('tuple', (c(int), c(str), lit('a'))), un(c(str), lit(1), c(NT)), un(lit('a'), lit(1)), un(c(P), c(list))])
LI, LS = ('list', c(int)), ('list', c(str))
LEVEL2 = [('list', LI), ('list', un(LI, c(str))), un(LI, LS), un(LI, c(str), ('dict', c(str), c(int))), ('dict', c(str), LI), ('dict', c(str), ('dict', c(str), c(int))),
          ('tuple*', LI), ('tuple', (LI, ('tuple', (c(int), c(str))))), ('seq', ('tuple', (c(int), c(str)))), ('seq', ('seq', c(int))), ('mapping', c(str), ('seq', c(int))),
          ('list', ('dict', c(str), ('list', c(int)))), ('list', un(('tuple', (c(int),)), ('tuple', (c(int), c(int))))), un(('tuple*', c(int)), ('list', c(str))),
          ('list', ('opt2', LI)), ('dict', un(c(int), c(str)), un(LI, c(NT))), ('tuple', (ANYD, LI)), ('list', ('bare', typing.List)), ('list', ('unsup', T)),
          un(c(int), ('unsup', T)), ('tuple', (('unsup', UserId), c(int))), ('dict', c(str), ('unsup', typing.Callable[[int], int]))]
LEVEL2 = [('list', un(LI, c(NT))) if d == ('list', ('opt2', LI)) else d for d in LEVEL2]


def deep():
    return LEVEL2 + [mk(op, d) for op in ('list', 'seq', 'tuple*', 'tuple1', 'opt') for d in LEVEL1 if d[0] not in ('set',)] + [('dict', c(str), d) for d in LEVEL1] + [('tuple', (d, c(int))) for d in LEVEL1[::2]]


def expr(d, new=False):
    """The typing expression; `new` uses builtin generics and | where possible."""
    k = d[0]
    if k == 'any':
        return typing.Any
    if k in ('cls', 'bare', 'unsup'):
        return d[1]
    if k == 'lit':
        return typing.Literal[d[1]]
    if k == 'union':
        xs = [expr(x, new) for x in d[1]]
        if new:
            r = xs[0]
            try:
                for x in xs[1:]:
                    r = r | x
                return r
            except TypeError:
                pass
        return typing.Union[tuple(xs)]
    if k == 'list':
        return list[expr(d[1], new)] if new else typing.List[expr(d[1])]
    if k == 'set':
        return set[expr(d[1], new)] if new else typing.Set[expr(d[1])]
    if k == 'seq':
        return cabc.Sequence[expr(d[1], new)] if new else typing.Sequence[expr(d[1])]
    if k == 'dict':
        return dict[expr(d[1], new), expr(d[2], new)] if new else typing.Dict[expr(d[1]), expr(d[2])]
    if k == 'mapping':
        return cabc.Mapping[expr(d[1], new), expr(d[2], new)] if new else typing.Mapping[expr(d[1]), expr(d[2])]
    if k == 'tuple*':
        return tuple[expr(d[1], new), ...] if new else typing.Tuple[expr(d[1]), ...]
    if k == 'tuple':
        xs = tuple(expr(x, new) for x in d[1])
        return tuple[xs] if new else typing.Tuple[xs]
    raise KeyError(k)


BARE_CLS = {typing.List: list, typing.Set: set, typing.Tuple: tuple, typing.Dict: dict, typing.Mapping: cabc.Mapping}


def conforms(H, v, d):
    """Reference semantics, as a formula where nothing needs deciding."""
    k = d[0]
    if k == 'any' or k == 'unsup':
        return True
    if k == 'cls':
        return isinstance(v, d[1])
    if k == 'bare':
        if d[1] is typing.Sequence:
            return isinstance(v, (list, tuple, set))
        return isinstance(v, BARE_CLS[d[1]])
    if k == 'lit':
        return H.Or(*[H.eq(v, a) for a in d[1]])
    if k == 'union':
        return H.Or(*[conforms(H, v, x) for x in d[1]])
    cls = {'list': list, 'set': set, 'seq': (list, tuple, set), 'dict': dict, 'mapping': cabc.Mapping, 'tuple*': tuple, 'tuple': tuple}[k]
    if not isinstance(v, cls):
        return False
    if k in ('dict', 'mapping'):
        return H.And(*[H.And(conforms(H, x, d[1]), conforms(H, y, d[2])) for x, y in v.items()])
    if k == 'tuple':
        return len(v) == len(d[1]) and H.And(*[conforms(H, x, y) for x, y in zip(v, d[1])])
    return H.And(*[conforms(H, x, d[1]) for x in v])


def accepts(H, t, v, entry='validate_types'):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        if entry == 'validate_types':
            ok, r = H.attempt(oblate.validate_types, {'k': t}, {'k': v})
        elif entry == 'class':
            class S(oblate.Schema):
                k = fields.TypeExpr(t, none=True)
            if v is None:
                ok, r = H.attempt(oblate.validate_types, {'k': t}, {'k': v})
            else:
                ok, r = H.attempt(S, {'k': v})
    if not ok:
        H.check(isinstance(r, (oblate.TypeValidationError, oblate.ValidationError)), 'a rejection is a validation error, got ' + type(r).__name__)
        if entry == 'validate_types':
            H.check(list(r.errors) == ['k'] and len(r.errors['k']) > 0, 'errors for the key')
        else:
            H.check(len(r.errors) > 0, 'errors for the key')
    return ok


def decide(H, descrs, spec, new=False, entry='validate_types'):
    d = descrs[H.choice('expr', tuple(range(len(descrs))))]
    v = H.value('v', spec)
    ok = accepts(H, expr(d, new), v, entry)
    H.cover('accepted' if ok else 'rejected')
    H.check(H.iff(ok, conforms(H, v, d)), 'accepted exactly when the value conforms to the expression')
    H.out('ok', ok)


SCAL = ('none', 'bool', 'int', 'str')
WIDE = ('none', 'bool', 'int', 'float', 'str', 'bytes', 'obj', 'list', 'tuple', 'set', 'frozenset', 'dict', 'mapping', 'intsub', 'strsub', 'listsub', 'setsub', 'dictsub', 'tuplesub')


def atoms(H):
    decide(H, ATOMS, Spec(WIDE, elem=Spec(SCAL), key=Spec(('int', 'str')), maxlen=1), new=H.flip('new'))


def level1(H):
    n = H.bound(2, 3)
    decide(H, LEVEL1, Spec(('none', 'int', 'str', 'list', 'tuple', 'set', 'frozenset', 'dict', 'mapping', 'listsub', 'setsub', 'dictsub', 'tuplesub'),
                           elem=Spec(SCAL), key=Spec(('int', 'str')), maxlen=n))


def level1_new(H):
    """The same expressions in the builtin notation, through a field."""
    decide(H, [d for d in LEVEL1 if d[0] != 'bare'], Spec(('none', 'int', 'str', 'list', 'tuple', 'set', 'dict', 'mapping'), elem=Spec(SCAL), key=Spec(('int', 'str')), maxlen=2),
           new=True, entry='class')


def level2(H):
    inner = Spec(('int', 'str', 'none', 'list', 'tuple', 'dict'), elem=Spec(('int', 'str')), key=Spec(('str', 'int')), maxlen=H.bound(1, 2))
    decide(H, LEVEL2 if not H.thorough else deep(), Spec(('none', 'str', 'list', 'tuple', 'dict', 'mapping'), elem=inner, key=Spec(('int', 'str')), maxlen=2), new=H.flip('new') if H.thorough else False)


POOL = [LI, LS, ('dict', c(str), c(int)), ('dict', c(int), c(str)), ('tuple*', c(int)), ('tuple', (c(int), c(str))), ('seq', c(str)), ('set', c(int)), ('set', c(str)),
        ('mapping', c(str), c(str)), lit('a', 1), c(P), ('tuple', (c(str),)), ('bare', typing.Dict)]


def alternatives(H):
    """Unions of two structured alternatives in either order, also as items."""
    a = POOL[H.choice('a', tuple(range(len(POOL))))]
    b = POOL[H.choice('b', tuple(range(len(POOL))))]
    if a is b:
        return
    v = H.value('v', Spec(('int', 'list', 'tuple', 'set', 'dict', 'mapping'), elem=Spec(('int', 'str')), key=Spec(('int', 'str')), maxlen=H.bound(2, 3)))
    d = un(a, b)
    where = H.choice('where', ('top', 'optional', 'item')) if H.thorough else 'top'
    if where == 'optional':
        d = un(c(NT), a, b)
    want = conforms(H, v, d)
    if where == 'item':
        d, v = ('list', d), [v]
    ok = accepts(H, expr(d, H.flip('new') if H.thorough else False), v)
    H.cover('accepted' if ok else 'rejected')
    H.check(H.iff(ok, want), 'accepted exactly when the value conforms to one of the alternatives')


def unsupported(H):
    """Expressions outside the documented set accept everything, with at most a warning, also when repeated."""
    every = UNSUPPORTED + NOTYPES
    i = H.choice('expr', tuple(range(len(every))))
    t = every[i]
    oblate.config.warn_unsupported_types = H.flip('warn')
    v = H.value('v', Spec(('none', 'int', 'str', 'list', 'dict', 'obj', 'frozenset'), elem=Spec(('int', 'str')), maxlen=1))
    where = H.choice('where', ('top', 'list', 'union'))
    tt = t
    val = v
    if where == 'list':
        tt, val = list[(t,)], [v]
    elif i >= len(UNSUPPORTED):
        tt, val = dict[str, t], {'a': v}
    elif where == 'union':
        tt = typing.Union[t, int]
    for _ in range(2):
        H.check(accepts(H, tt, val), 'unsupported expressions accept every value')
    H.cover('accepted')


def positions(H):
    """A non-conforming element is found at every position; long containers."""
    n = H.bound(5, 7)
    form = H.choice('form', ('list', 'tuple', 'seq-list', 'seq-tuple', 'set', 'seq-set', 'dict', 'dict-keys', 'mapping', 'fixed'))
    ln = H.choice('len', tuple(range(n + 1)))
    el = Spec(('int', 'str'))
    if form in ('set', 'seq-set', 'dict-keys'):
        bad = H.choice('bad', (None,) + tuple(range(ln)))
        xs = [H.int('x%d' % i) if i != bad else H.str('x') for i in range(ln)]
        H.assume(H.And(*[H.Not(H.eq(xs[i], xs[j])) for i in range(ln) for j in range(i)]))
    else:
        xs = [H.value('x%d' % i, el) for i in range(ln)]
    t, v, want = {
        'list': lambda: (typing.List[int], xs, ln), 'tuple': lambda: (typing.Tuple[int, ...], tuple(xs), ln),
        'seq-list': lambda: (typing.Sequence[int], xs, ln), 'seq-tuple': lambda: (typing.Sequence[int], tuple(xs), ln),
        'set': lambda: (typing.Set[int], set(xs), ln), 'seq-set': lambda: (typing.Sequence[int], set(xs), ln),
        'dict': lambda: (typing.Dict[str, int], {'k%d' % i: x for i, x in enumerate(xs)}, ln),
        'dict-keys': lambda: (typing.Dict[int, str], mapping(H, [(x, 'v') for x in xs]), ln),
        'mapping': lambda: (typing.Mapping[str, int], {'k%d' % i: x for i, x in enumerate(xs)}, ln),
        'fixed': lambda: (typing.Tuple[(int,) * 3], tuple(xs), 3)}[form]()
    ok = accepts(H, t, v)
    H.cover(form + (' accepted' if ok else ' rejected'))
    H.check(H.iff(ok, H.And(ln == want, *[isinstance(x, int) for x in xs])), 'accepted exactly when every element conforms')


FORMS = {'list': (typing.List[int], list), 'builtin': (list[int], list), 'tuple': (typing.Tuple[int, ...], tuple), 'seq-list': (typing.Sequence[int], list), 'seq-tuple': (typing.Sequence[int], tuple),
         'set': (typing.Set[int], set), 'seq-set': (typing.Sequence[int], set), 'dict': (typing.Dict[int, int], lambda xs: dict(enumerate(xs))), 'mapping': (typing.Mapping[int, int], lambda xs: dict(enumerate(xs))),
         'keys': (typing.Dict[int, str], lambda xs: {x: 'v' for x in xs}), 'mapping-keys': (typing.Mapping[int, typing.Any], lambda xs: {x: None for x in xs})}


def long(H):
    """One or two non-conforming elements anywhere in a long container, also after equal elements."""
    form = H.choice('form', tuple(FORMS) + ('fixed', 'union'))
    n = H.choice('n', H.bound((7, 40), (7, 40, 130)))
    at = H.choice('at', tuple(range(n)) if n < 10 else (0, 1, n // 2, 8, 16, 31, 32, n - 2, n - 1))
    bad = H.choice('bad', ('no', 'x', 2.5, None, 'equal'))
    twice = H.flip('twice')
    xs = list(range(n)) if form in ('set', 'seq-set', 'keys', 'mapping-keys') else [1] * n
    if bad != 'no':
        # also one that equals a conforming one
        xs[at] = bad if bad != 'equal' else float(xs[at])
        if twice:
            xs[at - 1] = xs[at] if form not in ('set', 'seq-set', 'keys', 'mapping-keys') else 'y'
    if form == 'fixed':
        t, v = typing.Tuple[(int,) * n], tuple(xs)
    elif form == 'union':
        t, v = typing.List[typing.Union[int, typing.List[str]]], xs
    else:
        t, v = FORMS[form][0], FORMS[form][1](xs)
    ok = accepts(H, t, v)
    H.cover('accepted' if ok else 'rejected')
    H.check(ok == (bad == 'no'), 'accepted exactly when every element conforms')
    if ok and form == 'fixed':
        H.check(not accepts(H, t, v + (1,)) and not accepts(H, t, v[:-1]), 'and exactly as many')


WRAP = {'list': (lambda t: typing.List[t], lambda v: [v]), 'dict': (lambda t: typing.Dict[str, t], lambda v: {'k': v}), 'opt': (lambda t: typing.Optional[t], lambda v: v),
        'tuple': (lambda t: typing.Tuple[t, ...], lambda v: (v,)), 'pair': (lambda t: typing.Tuple[int, t], lambda v: (1, v)), 'seq': (lambda t: typing.Sequence[t], lambda v: [v]),
        'map': (lambda t: typing.Mapping[str, t], lambda v: {'k': v}), 'union': (lambda t: typing.Union[bytes, t], lambda v: v)}


def depth(H):
    """Expressions nested several levels: the innermost value decides."""
    n = H.choice('depth', (3, 6) if not H.thorough else (3, 5, 8))
    first = H.choice('first', tuple(WRAP))
    then = H.choice('then', tuple(WRAP) if H.thorough else ('list', 'dict', 'pair', 'union'))
    v = H.value('v', Spec(('none', 'int', 'str', 'list'), elem=Spec(('int', 'str')), maxlen=1))
    leaf = H.choice('leaf', (c(int), LI, un(c(str), LI)))
    t, want, none = expr(leaf), conforms(H, v, leaf), v is None
    wraps = [(first, then)[i % 2] for i in range(n)]
    for w in wraps:
        t, v = WRAP[w][0](t), WRAP[w][1](v)
    if none and 'opt' in wraps and not want:
        # an optional directly around the value (unions add nothing in between) accepts it
        i = 0
        while wraps[i] == 'union':
            i += 1
        want = wraps[i] == 'opt'
    ok = accepts(H, t, v)
    H.cover('accepted' if ok else 'rejected')
    H.check(H.iff(ok, want), 'accepted exactly when the innermost value conforms')


def wide(H):
    """Unions and literals of many members: each of them counts."""
    what = H.choice('what', ('union', 'literal', 'optionals'))
    v = H.value('v', Spec(('none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'set', 'dict'), elem=Spec(('int', 'str')), key=Spec(('str',)), maxlen=1))
    if what == 'union':
        ds = (c(float), lit('a'), c(bytes), LI, ('dict', c(str), c(int)), ('set', c(str)), ('tuple', (c(int),)), c(NT), c(int))
        drop = H.choice('drop', tuple(range(len(ds))))
        d = un(*(ds[:drop] + ds[drop + 1:]))
    elif what == 'literal':
        d = lit(*([10 * i for i in range(8)] + ['w%d' % i for i in range(8)] + [None, b'z']))
    else:
        d = un(un(c(int), c(NT)), ('list', un(c(str), c(NT))), lit('x', 'y'))
    ok = accepts(H, expr(d, H.flip('new')), v)
    H.cover('accepted' if ok else 'rejected')
    H.check(H.iff(ok, conforms(H, v, d)), 'accepted exactly when the value conforms to one of the members')


def classes(H):
    """User-defined classes: isinstance() decides, also for virtual subclasses; unions and containers of them."""
    v = {'P': P(), 'Ch': Ch(), 'Gen': Gen(), 'cls': P, 'od': collections.OrderedDict(a=1), 'dd': collections.defaultdict(int, a=1),
         'nt': collections.namedtuple('N', 'x')(1), 'counter': collections.Counter('a')}[H.choice('value', ('P', 'Ch', 'Gen', 'cls', 'od', 'dd', 'nt', 'counter'))]
    t, ref = ((P, lambda x: isinstance(x, P)), (Ch, lambda x: isinstance(x, Ch)), (Even, lambda x: isinstance(x, P)), (Gen, lambda x: isinstance(x, Gen)), (type, lambda x: isinstance(x, type)),
              (typing.Union[Ch, type], lambda x: isinstance(x, (Ch, type))), (typing.Dict[str, int], lambda x: isinstance(x, dict)), (typing.Tuple[int], lambda x: isinstance(x, tuple)),
              (collections.OrderedDict, lambda x: isinstance(x, collections.OrderedDict)), (typing.Mapping[str, str], lambda x: False),
              (cabc.Callable, callable))[H.choice('type', tuple(range(11)))]
    ok = accepts(H, t, v)
    H.check(ok == ref(v), 'membership is decided by isinstance()')
    H.cover('accepted' if ok else 'rejected')
    ok = accepts(H, typing.List[typing.Optional[t]], [None, v])
    H.check(ok == ref(v), 'also inside containers')


def twin_class(i):
    return type('Twin', (), {'__module__': __name__, '__slots__': ()})


def twin_dict(i):
    return typing.TypedDict('Twin', {'a': (int, str)[i]})


def twin_enum(i):
    return enum.Enum('Twin', {'A': (1, 'x')[i]})


def twins(H):
    """Distinct types of one name are distinct, whatever was validated before."""
    kind = H.choice('kind', ('class', 'dict', 'enum'))
    mk = {'class': twin_class, 'dict': twin_dict, 'enum': twin_enum}[kind]
    ts = [mk(0), mk(1)]
    good = {'class': lambda i: ts[i](), 'dict': lambda i: {'a': (1, 's')[i]}, 'enum': lambda i: list(ts[i])[0]}[kind]
    wrap, inside = H.choice('wrap', ((lambda t: t, lambda v: v), (lambda t: typing.List[t], lambda v: [v]), (lambda t: typing.Optional[t], lambda v: v), (lambda t: typing.Dict[str, t], lambda v: {'k': v}),
                                     (lambda t: typing.Tuple[t, ...], lambda v: (v, v)), (lambda t: typing.Union[t, str], lambda v: v)))
    order = [(H.choice('type.%d' % n, (0, 1)), H.choice('value.%d' % n, (0, 1))) for n in range(3)]
    for t, v in order:
        ok = accepts(H, wrap(ts[t]), inside(good(v)), H.choice('entry', ('validate_types', 'class')))
        H.check(ok == (t == v), 'every type accepts its own values')
        H.cover('accepted' if ok else 'rejected')


def several(H):
    """Verdicts do not depend on earlier validations."""
    t1 = H.choice('t1', (typing.List[int], T, typing.Optional[int], typing.Tuple[int, ...], typing.Literal['a']))
    v = H.value('v', Spec(('none', 'int', 'str', 'list', 'tuple'), elem=Spec(('int', 'str')), maxlen=1))
    w = H.value('w', Spec(('none', 'int', 'str', 'list'), elem=Spec(('int', 'str')), maxlen=1))
    a = accepts(H, t1, v)
    accepts(H, typing.Union[t1, str], w)
    accepts(H, typing.List[t1], [w, v])
    H.check(accepts(H, t1, v) == a, 'the same verdict again')
    H.cover('accepted' if a else 'rejected')


for f in (alternatives, atoms, level1, level1_new, level2, classes, several, twins, long, depth, wide):
    f.covers = ('accepted', 'rejected')
unsupported.covers = ('accepted',)
positions.covers = tuple(f + r for f in ('list', 'tuple', 'seq-list', 'seq-tuple', 'set', 'seq-set', 'dict', 'dict-keys', 'mapping', 'fixed') for r in (' accepted', ' rejected'))
SCENARIOS = dict(atoms=atoms, level1=level1, level1_new=level1_new, level2=level2, alternatives=alternatives, unsupported=unsupported, positions=positions, classes=classes, several=several, twins=twins, long=long, depth=depth, wide=wide)
