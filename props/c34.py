"""C34: structure and typing fields accept exactly their declared types."""
import typing
import oblate
from oblate import fields
from common import *
from c15 import conforms, expr, c, lit, un, mk, ANYD, NT, LI, P, Ch, T, UNSUPPORTED

BOUNDS = ('Dict, List, Set, TypedDict, TypeExpr, Union and Literal fields over a family of declared types (listed in the module), every value of the '
          'listed kinds with up to 2 (thorough: 3) elements per container and two levels of nesting; construction, update and assignment; dump; lists, sets and dictionaries of 9 and 33 (thorough: 100) elements with one or two mismatches; '
          'pairs of fields of different types of one name or alike text, 2 (thorough: 3) uses')
ASSUMPTIONS = ['elements of sets and keys of mappings are hashable scalars']


class TD(typing.TypedDict):
    r: int
    o: typing.NotRequired[typing.List[str]]


class TD2(TD, total=False):
    p: typing.Union[int, None]


TDS = {TD: ({'r': c(int), 'o': ('list', c(str))}, {'r'}), TD2: ({'r': c(int), 'o': ('list', c(str)), 'p': un(c(int), c(NT))}, {'r'})}

TYPES = [c(int), c(str), ANYD, lit('a', 1), un(c(int), c(NT)), LI, ('dict', c(str), c(int)), ('tuple', (c(int), c(str))), ('unsup', T), ('bare', typing.List)]
DICTS = [None, (c(str), c(int)), (c(int), ANYD), (ANYD, un(c(int), LI)), (un(c(str), c(int)), ('list', c(str))), (lit('a', 'b'), c(int)), (c(str), ('dict', c(str), c(int)))]
EXPRS = [c(int), ANYD, lit('a', 1), un(c(int), c(str)), LI, ('set', c(int)), ('seq', c(int)), ('tuple*', c(int)), ('tuple', (c(int), c(str))), ('dict', c(str), c(int)),
         ('mapping', c(str), c(int)), ('list', un(LI, c(str))), ('opt', LI), ('bare', typing.Dict), ('unsup', T), ('list', ('tuple', (c(int), c(str))))]
EXPRS = [mk('opt', LI) if d == ('opt', LI) else d for d in EXPRS]
UNIONS = [(c(int), c(str)), (c(int), c(NT)), (LI, c(str)), (c(str), ('dict', c(str), c(int))), (c(P), c(list)), (lit('a'), c(int)), (c(int), c(str), c(list))]
LITS = [('a',), (1, 2), ('a', 1, None), (True,), (0, 'b'), ('',)]

SCAL = Spec(('none', 'int', 'str', 'bool'))
FLAT = ('none', 'int', 'str', 'float', 'obj', 'list', 'tuple', 'set', 'frozenset', 'dict', 'mapping', 'listsub', 'setsub', 'dictsub')


def count(H, v, d):
    """How many mismatches a value of the right structure has."""
    k = d[0]
    if k in ('list', 'seq', 'tuple*', 'set') and isinstance(v, {'list': list, 'seq': (list, tuple, set), 'tuple*': tuple, 'set': set}[k]):
        n = 0
        for x in v:
            if not conforms(H, x, d[1]):
                n += 1
        return n
    if k in ('dict', 'mapping') and isinstance(v, dict if k == 'dict' else typing.Mapping):
        n = 0
        for x, y in v.items():
            if not H.And(conforms(H, x, d[1]), conforms(H, y, d[2])):
                n += 1
        return n
    if k == 'tuple' and isinstance(v, tuple):
        n = 0
        for x, y in zip(v, d[1]):
            if not conforms(H, x, y):
                n += 1
        return n + (len(v) != len(d[1]))
    return 0 if conforms(H, v, d) else 1


def run(H, base, args, v, structure, mismatches, codes, exact=True):
    """Loads v in some way and judges the outcome. structure/mismatches are functions deciding what is wrong with v."""
    log = []

    class Fd(base):
        def format_error(self, code, context):
            log.append((code, context))
            return None

    class S(oblate.Schema):
        a = Fd(*args, load_key='ka', required=False)
        b = fields.Any(required=False)
    how = H.choice('how', ('construct', 'update', 'set'))
    s = S({}) if how != 'construct' else None
    if how == 'construct':
        ok, r = H.attempt(S, {'ka': v})
        s = r
    elif how == 'update':
        ok, r = H.attempt(s.update, {'ka': v, 'b': 1})
    else:
        ok, r = H.attempt(setattr, s, 'a', v)
    if v is None:
        H.check(not ok and log[0][0] == S.a.ERR_NONE_DISALLOWED, 'None is governed by the none option')
        return
    if not structure(v):
        H.check(not ok, 'another structure is rejected')
        H.check(len(log) == 1 and log[0][0] == S.a.ERR_INVALID_DATATYPE, 'with the invalid datatype code')
        H.check(len(r.errors) == 1 and r.errors[0].key == 'ka', 'reported once under the load key')
        H.cover('structure')
    else:
        n = mismatches(v)
        H.check(ok == (n == 0), 'accepted exactly when the value conforms')
        if n:
            H.check(isinstance(r, oblate.ValidationError), 'a validation error')
            H.check(len(log) == 1 and log[0][0] == getattr(S.a, codes), 'with the type validation code')
            H.check(len(r.errors) == n if exact else len(r.errors) >= 1, 'one reported error per mismatch')
            H.check(all(e.key == 'ka' for e in r.errors) and len(r.raw()['ka']) == len(r.errors), 'under the load key')
            H.check(all(isinstance(e.message, str) for e in r.errors), 'as text')
            H.cover('mismatch')
        else:
            H.check(log == [], 'nothing to report')
            H.check(s.a is v or H.same(s.a, v), 'the very object is stored')
            d = s.dump()
            H.check(d['a'] is v or H.same(d['a'], v), 'and dumped')
            H.cover('accepted')
    if not ok and how != 'construct':
        H.check(s.get_value_for('a', UNSET) is UNSET, 'nothing is stored')


INNER = Spec(('int', 'str', 'none', 'list', 'tuple', 'dict'), elem=Spec(('int', 'str')), key=Spec(('str',)), maxlen=1)


def values(H, kinds):
    n = H.bound(2, 3)
    return H.value('v', Spec(kinds, elem=INNER, key=Spec(('int', 'str')), maxlen=n))


def scalar(H):
    """Values that are not of the structure at all."""
    cls, args, t = {'dict': (fields.Dict, (str, int), dict), 'dict any': (fields.Dict, (), dict), 'list': (fields.List, (int,), list), 'list any': (fields.List, (), list),
                    'set': (fields.Set, (int,), set), 'set any': (fields.Set, (), set), 'typed': (fields.TypedDict, (TD,), dict)}[
        H.choice('field', ('dict', 'dict any', 'list', 'list any', 'set', 'set any', 'typed'))]
    v = H.value('v', Spec(FLAT, elem=Spec(('int',)), key=Spec(('int',)), maxlen=0))
    run(H, cls, args, v, lambda v: isinstance(v, t), lambda v: 1 if cls is fields.TypedDict else 0, 'ERR_TYPE_VALIDATION_FAILED')


def dicts(H):
    d = DICTS[H.choice('type', tuple(range(len(DICTS))))]
    v = H.value('v', Spec(('dict', 'dictsub'), elem=INNER, key=Spec(('int', 'str', 'none')), maxlen=H.bound(2, 3)))
    args = () if d is None else (expr(d[0]), expr(d[1]))
    run(H, fields.Dict, args, v, lambda v: True, lambda v: count(H, v, ('dict',) + d) if d else 0, 'ERR_TYPE_VALIDATION_FAILED')


def lists(H):
    d = H.choice('type', (None,) + tuple(range(len(TYPES))))
    v = values(H, ('list', 'listsub'))
    run(H, fields.List, () if d is None else (expr(TYPES[d]),), v, lambda v: True, lambda v: 0 if d is None else count(H, v, ('list', TYPES[d])), 'ERR_TYPE_VALIDATION_FAILED')


def sets(H):
    ds = [d for d in TYPES if d[0] not in ('list', 'dict', 'bare')]
    d = H.choice('type', (None,) + tuple(range(len(ds))))
    v = H.value('v', Spec(('set', 'setsub'), elem=Spec(('int', 'str', 'none')), maxlen=H.bound(2, 3)))
    run(H, fields.Set, () if d is None else (expr(ds[d]),), v, lambda v: True, lambda v: 0 if d is None else count(H, v, ('set', ds[d])), 'ERR_TYPE_VALIDATION_FAILED')


def typed(H):
    td = H.choice('type', (TD, TD2))
    keys, req = TDS[td]
    pairs = []
    for k in keys:
        if H.flip('has.' + k):
            pairs.append((k, H.value('v.' + k, Spec(('int', 'str', 'none', 'list'), elem=Spec(('int', 'str')), maxlen=1))))
    extra = H.choice('extra', ('none', 'p', 'zz', 0))
    if extra != 'none' and not any(k == extra for k, _ in pairs):
        pairs.append((extra, 1)) if H.flip('last') else pairs.insert(0, (extra, 1))
    v = dict(pairs)

    def mismatches(v):
        n = 0
        for k, x in pairs:
            if k not in keys:
                n += 1
            elif not conforms(H, x, keys[k]):
                n += 1
        for k in req:
            if not any(k == x for x, _ in pairs):
                n += 1
        return n
    run(H, fields.TypedDict, (td,), v, lambda v: True, mismatches, 'ERR_TYPE_VALIDATION_FAILED')


def exprs(H):
    d = EXPRS[H.choice('type', tuple(range(len(EXPRS))))]
    v = values(H, ('none', 'int', 'str', 'list', 'tuple', 'set', 'dict'))
    run(H, fields.TypeExpr, (expr(d),), v, lambda v: True, lambda v: count(H, v, d), 'ERR_TYPE_VALIDATION_FAILED')


def unions(H):
    ds = UNIONS[H.choice('type', tuple(range(len(UNIONS))))]
    v = values(H, ('none', 'int', 'str', 'float', 'list', 'dict', 'bool'))
    run(H, fields.Union, tuple(expr(d) for d in ds), v, lambda v: True, lambda v: count(H, v, ('union', ds)), 'ERR_INVALID_VALUE')


def literals(H):
    ls = LITS[H.choice('type', tuple(range(len(LITS))))]
    v = H.value('v', Spec(('none', 'int', 'str', 'bool', 'float', 'bytes', 'list', 'dict', 'strsub', 'intsub'), elem=Spec(('int',)), maxlen=1))
    run(H, fields.Literal, ls, v, lambda v: True, lambda v: count(H, v, ('lit', ls)), 'ERR_INVALID_VALUE')


def anything(H):
    """Any accepts and keeps everything."""
    class S(oblate.Schema):
        a = fields.Any(none=H.flip('none'))
    v = H.value('v', Spec(FLAT, elem=Spec(('int',)), key=Spec(('int',)), maxlen=1))
    ok, r = H.attempt(S, {'a': v})
    H.check(ok == (v is not None or S.a.none), 'every value is accepted')
    if ok:
        H.check(r.a is v or H.same(r.a, v), 'and stored as it is')
        H.cover('accepted')


def large(H):
    """Large values: every mismatch is reported, wherever it is."""
    n = H.choice('n', H.bound((9, 33), (9, 33, 100)))
    spots = (0, 1, 4, 7, 8, n // 2, n - 2, n - 1)
    bad = {x for x in (H.choice('one', (None,) + spots), H.choice('two', (None,) + spots)) if x is not None}
    wrong = H.choice('wrong', ('x', None, 1.5))
    form = H.choice('form', ('list', 'dict', 'dict keys', 'set', 'expr', 'union', 'any list', 'any dict', 'any set', 'seq'))
    if form in ('list', 'expr', 'union', 'any list', 'seq'):
        v = [wrong if i in bad else i for i in range(n)]
    elif form in ('dict', 'any dict'):
        v = {'k%d' % i: wrong if i in bad else i for i in range(n)}
    elif form == 'dict keys':
        v = {(str(i) if i in bad else i): i for i in range(n)}
    else:
        v = {(str(i) if i in bad else i) for i in range(n)}
    base, args, code = {'list': (fields.List, (int,), 'ERR_TYPE_VALIDATION_FAILED'), 'dict': (fields.Dict, (str, int), 'ERR_TYPE_VALIDATION_FAILED'), 'dict keys': (fields.Dict, (int, int), 'ERR_TYPE_VALIDATION_FAILED'),
                        'set': (fields.Set, (int,), 'ERR_TYPE_VALIDATION_FAILED'), 'expr': (fields.TypeExpr, (typing.List[int],), 'ERR_TYPE_VALIDATION_FAILED'),
                        'union': (fields.Union, (str, typing.List[int]), 'ERR_INVALID_VALUE'), 'any list': (fields.List, (), None), 'any dict': (fields.Dict, (), None), 'any set': (fields.Set, (), None),
                        'seq': (fields.TypeExpr, (typing.Sequence[int],), 'ERR_TYPE_VALIDATION_FAILED')}[form]
    if form.startswith('any'):
        bad = ()
    run(H, base, args, v, lambda v: True, lambda v: len(bad) if form != 'union' else min(1, len(bad)), code)


def several(H):
    """Fields do not influence each other, and a verdict does not depend on earlier ones."""
    class S(oblate.Schema):
        l = fields.List(int, required=False)
        m = fields.List(str, required=False)
        n = fields.List(required=False)
        d = fields.Dict(str, int, required=False)
        e = fields.Dict(required=False)
        u = fields.Union(int, str, required=False)
        w = fields.Union(str, list, required=False)
    v = H.value('v', Spec(('list', 'dict', 'int', 'str'), elem=Spec(('int', 'str')), key=Spec(('str', 'int')), maxlen=1))
    w = H.value('w', Spec(('list', 'int', 'str'), elem=Spec(('int', 'str')), maxlen=1))
    names = 'lmndeuw'
    types = {'l': LI, 'm': ('list', c(str)), 'n': c(list), 'd': ('dict', c(str), c(int)), 'e': c(dict), 'u': un(c(int), c(str)), 'w': un(c(str), c(list))}
    one = H.choice('one', tuple(names))
    two = H.choice('two', tuple(names))
    s = S({})
    for n, x in ((one, v), (two, w), (one, v)):
        ok, r = H.attempt(s.update, {n: x})
        H.check(H.iff(ok, conforms(H, x, types[n])), 'each by its own declared type')
    H.cover('accepted')


for f in (dicts, lists, sets, typed, exprs, unions, literals):
    f.covers = ('accepted', 'mismatch')
scalar.covers = ('structure', 'accepted', 'mismatch')
large.covers = ('accepted', 'mismatch')
anything.covers = several.covers = ('accepted',)
TDU = typing.TypedDict('TDU', {'k': int})


def unprintable(H):
    """Values without a text or representation are rejected like any others, by default messages too."""
    base, args, wrap = {
        'dict': (fields.Dict, (str, int), lambda v: {'x': v}), 'dict key': (fields.Dict, (typing.Union[int, str], str), lambda v: {v: 'a', 7: v}),
        'dict keys': (fields.Dict, (str, int), lambda v: {v: 1}), 'list': (fields.List, (int,), lambda v: [v]), 'union items': (fields.List, (typing.Union[int, str],), lambda v: [v]),
        'set': (fields.Set, (typing.Union[int, str],), lambda v: {v}), 'typed': (fields.TypedDict, (TDU,), lambda v: {'k': v}), 'typed key': (fields.TypedDict, (TDU,), lambda v: {'k': 1, v: v}),
        'expr': (fields.TypeExpr, (typing.Optional[str],), lambda v: v), 'mapping': (fields.TypeExpr, (typing.Mapping[typing.Any, str],), lambda v: {v: v}),
        'union': (fields.Union, (str, list), lambda v: v), 'literal': (fields.Literal, (1, 'yes'), lambda v: v), 'structure': (fields.Dict, (), lambda v: v),
    }[H.choice('type', ('dict', 'dict key', 'dict keys', 'list', 'union items', 'set', 'typed', 'typed key', 'expr', 'mapping', 'union', 'literal', 'structure'))]

    class S(oblate.Schema):
        a = base(*args, required=False)
        b = fields.Any(required=False)
    v = UNPRINTABLE[H.choice('value', tuple(range(len(UNPRINTABLE))))]
    if isinstance(v, list):
        v = v[0]
    val = wrap(v)
    how = H.choice('how', ('load', 'update', 'set'))
    s = S({'b': 1})
    ok, r = H.attempt(S, {'a': val}) if how == 'load' else H.attempt(s.update, {'a': val}) if how == 'update' else H.attempt(setattr, s, 'a', val)
    good = isinstance(v, int) and (base is fields.List or base is fields.Set or base is fields.Dict and args[:1] == (str,) and 'x' in val or base is fields.TypedDict and len(val) == 1)
    H.check(ok == good, 'accepted exactly when it conforms')
    if ok:
        H.check((r if how == 'load' else s).a is val, 'stored')
        H.cover('accepted')
    else:
        H.check(isinstance(r, oblate.ValidationError), 'a validation error, never another exception')
        raw = r.raw()
        H.check(list(raw) == ['a'] and len(raw['a']) >= 1 and all(x and x in str(r) for x in raw['a']), 'errors with texts')
        H.check(s.get_value_for('a', UNSET) is UNSET, 'nothing stored')
        H.cover('rejected')


def twin(i):
    class Twin:
        pass
    Twin.__qualname__ = 'Twin'
    return Twin


TWINS = twin(0), twin(1)
TWIN_TDS = tuple(typing.TypedDict('TwinTD', {'k': t}) for t in (int, str))
ALIKE = {
    'classes': [c(t) for t in TWINS], 'unions': [un(c(int), c(NT)), un(c(int), c(str))], 'lists': [LI, ('list', c(str))], 'nested': [('list', LI), ('list', ('list', c(str)))],
    'literals': [lit('1'), lit(1)], 'typed': TWIN_TDS, 'bare': [c(list), LI], 'dicts': [('dict', c(str), c(int)), ('dict', c(str), c(str))],
    'tuples': [('tuple*', c(int)), ('tuple', (c(int),))], 'options': [mk('opt', LI), mk('opt', ('list', c(str)))],
}


def alike(H):
    """Fields of types of one name, made and used alternately, each accept by their own types."""
    decls = ALIKE[H.choice('types', tuple(ALIKE))]
    types = [d if d in TWIN_TDS else expr(d) for d in decls]
    make = {'list': lambda t: fields.List(t, required=False), 'set': lambda t: fields.Set(t, required=False), 'dict': lambda t: fields.Dict(str, t, required=False),
            'dict keys': lambda t: fields.Dict(t, int, required=False), 'expr': lambda t: fields.TypeExpr(t, required=False), 'union': lambda t: fields.Union(t, bytes, required=False)}
    kind = H.choice('field', tuple(make))
    scalar = kind in ('set', 'dict keys')

    class S(oblate.Schema):
        a = make[kind](types[0])
        b = make[kind](types[1])
    s = S({})
    for i in range(H.bound(2, 3)):
        what = H.choice('value%d' % i, ('int', 'str', 'first', 'second', 'tuple') + (() if scalar else ('ints', 'strs', 'deep', 'kint', 'kstr')))
        x = {'int': 1, 'str': '1', 'first': TWINS[0](), 'second': TWINS[1](), 'tuple': (1, 2), 'ints': [1], 'strs': ['a'], 'deep': [[1]],
             'kint': {'k': 1}, 'kstr': {'k': 'a'}}[what]
        v = {'list': lambda: [x], 'set': lambda: {x}, 'dict': lambda: {'key': x}, 'dict keys': lambda: {x: 1}, 'expr': lambda: x, 'union': lambda: x}[kind]()
        n = H.choice('name%d' % i, ('a', 'b'))
        d = decls[n == 'b']
        good = what == ('kint' if d is TWIN_TDS[0] else 'kstr') if d in TWIN_TDS else conforms(H, x, d)
        ok, r = H.attempt(s.update, {n: v})
        H.check(H.iff(ok, good), 'each by its own declared type')
        H.cover('accepted' if ok else 'rejected')
        if ok:
            H.check(s.get_value_for(n) is v, 'stored')


alike.covers = unprintable.covers = ('accepted', 'rejected')
SCENARIOS = dict(alike=alike, unprintable=unprintable, scalar=scalar, dicts=dicts, lists=lists, sets=sets, typed=typed, exprs=exprs, unions=unions, literals=literals, anything=anything, several=several, large=large)
