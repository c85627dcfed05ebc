"""C17: validate_types reports every bad, unknown and missing key, and only those."""
import typing
import oblate
from common import *
from sx.kinds import UserMapping

BOUNDS = ('up to 3 (thorough: 4) declared keys and 2 (thorough: 3) further keys, in any order; keys fixed or arbitrary (symbolic) strings; values of the listed kinds; '
          'both flags given or not; dictionaries and other mappings; 9 and 24 (thorough: 60) keys with one bad, one missing and 0, 1 or 9 unknown ones at chosen positions')
ASSUMPTIONS = ['keys are strings']
VAL = Spec(('none', 'int', 'str', 'list'), elem=Spec(('int', 'str')), maxlen=1)
TYPES = {'a': int, 'b': typing.Optional[str], 'c': typing.List[int], 'd': typing.Any}


def value_ok(H, v, n):
    if n == 'a':
        return isinstance(v, int)
    if n == 'b':
        return H.Or(v is None, isinstance(v, str))
    if n == 'c':
        return H.And(isinstance(v, list), *[isinstance(x, int) for x in v]) if isinstance(v, list) else False
    return True


def flags(H):
    kw = {}
    for n in ('ignore_extra', 'ignore_missing'):
        x = H.choice(n, ('default', True, False))
        if x != 'default':
            kw[n] = x
    return kw


def run(H, types, pairs, kw, types_obj, values_obj):
    exp = []
    present = []
    for k, v in pairs:
        for n in types:
            if k == n:
                present.append(n)
                if not value_ok(H, v, n):
                    exp.append(k)
                    H.cover('bad value')
                break
        else:
            if not kw.get('ignore_extra', False):
                exp.append(k)
                H.cover('unknown')
            else:
                H.cover('unknown ignored')
    for n in types:
        if not H.Or(*[H.eq(k, n) for k, _ in pairs]):
            if not kw.get('ignore_missing', False):
                exp.append(n)
                H.cover('missing')
            else:
                H.cover('missing ignored')
    for again in range(2):
        ok, r = H.attempt(oblate.validate_types, types_obj, values_obj, **kw)
        if not exp:
            H.check(ok and r is None, 'nothing is raised or returned when everything conforms')
            H.cover('accepted')
        else:
            H.check(not ok and isinstance(r, oblate.TypeValidationError), 'TypeValidationError is raised')
            got = list(r.errors)
            H.check(len(got) == len(exp), 'exactly the offending keys')
            for k in exp:
                H.check(H.Or(*[H.eq(k, g) for g in got]), 'exactly the offending keys are reported')
            for g in got:
                ms = r.errors[g]
                H.check(isinstance(ms, list) and len(ms) > 0 and all(isinstance(m, str) for m in ms), 'non-empty message lists')
            text = H.text(r)
            for k in exp:
                H.check(H.contains(text, k), 'the text names the key')
            for g in got:
                for n in types:
                    if H.eq(g, n):
                        gone = alone({n: types[n]}, {})
                        H.check(gone is not None and (r.errors[g] == gone) == (n not in present), 'a missing key is reported as missing, another one is not')
            H.cover('rejected')
            if len(exp) > 2:
                H.cover('many')
        H.check(list(types_obj.keys()) == list(types) and all([types_obj[n] is types[n] for n in types]), 'the types are not modified')
        got = list(values_obj.items())
        H.check(len(got) == len(pairs) and H.And(*[H.And(H.eq(a, c), b is d) for (a, b), (c, d) in zip(got, pairs)]), 'the values are not modified')


def alone(types, values):
    """What is said of the only key."""
    try:
        oblate.validate_types(types, values)
    except oblate.TypeValidationError as e:
        return list(e.errors.values())[0]
    return None


def fixed(H):
    n = H.bound(3, 4)
    types = {k: TYPES[k] for k in list(TYPES)[:n] if H.flip('declared.' + k)}
    pairs = [(k, H.value('v.' + k, VAL)) for k in list(TYPES)[:n] if H.flip('has.' + k)]
    if H.flip('extra'):
        pairs.append(('zz', H.value('extra', VAL)))
    if H.flip('reversed'):
        pairs = pairs[::-1]
    run(H, types, pairs, flags(H), dict(types), dict(pairs))


def symbolic_keys(H):
    H.universe('a', 'b', 'c', 'd')
    types = {k: TYPES[k] for k in ('a', 'b', 'c')[:H.choice('n', (2, 1, 0, 3) if H.thorough else (2, 1, 0))]}
    m = H.choice('m', (2, 1, 0, 3) if H.thorough else (2, 1, 0))
    pairs = [(H.str('k%d' % i), H.value('v%d' % i, Spec(('none', 'int', 'str')))) for i in range(m)]
    vals = mapping(H, pairs)
    run(H, types, pairs, flags(H), dict(types), vals)


def other_mappings(H):
    """Any mapping will do, on both sides; subsets of the flags."""
    types = {k: TYPES[k] for k in ('a', 'b') if H.flip('declared.' + k)}
    pairs = [(k, H.value('v.' + k, VAL)) for k in ('a', 'b', 'q') if H.flip('has.' + k)]
    t = UserMapping(types) if H.flip('types.mapping') else dict(types)
    v = UserMapping(pairs) if H.flip('values.mapping') else dict(pairs)
    run(H, types, pairs, flags(H), t, v)


def same_object(H):
    """Declared types and values may be related objects; a failing call does not disturb a later one."""
    types = {'a': int, 'b': str}
    x, y = H.value('x', Spec(('int', 'str'))), H.value('y', Spec(('int', 'str')))
    d1, d2 = {'a': x}, {'a': 1, 'b': y}
    ok1, r1 = H.attempt(oblate.validate_types, types, d1)
    ok2, r2 = H.attempt(oblate.validate_types, types, d2)
    H.check(not ok1 and sorted(r1.errors) == (['b'] if isinstance(x, int) else ['a', 'b']), 'first call')
    H.check(H.iff(ok2, isinstance(y, str)), 'second call')
    if not ok2:
        H.check(list(r2.errors) == ['b'], 'second errors')
        H.check(r1.errors is not r2.errors, 'each error has its own mapping')
    H.check(types == {'a': int, 'b': str}, 'the types are not modified')
    H.cover('accepted' if ok2 else 'rejected')


def large(H):
    """Many keys: every one of them is looked at, and each is reported once."""
    n = H.choice('n', H.bound((9, 24), (9, 24, 60)))
    names = ['key%d' % i for i in range(n)]
    types = {k: int for k in names}
    pairs = {k: 1 for k in names}
    exp = set()
    spots = (0, 1, 2, 4, 7, n // 2, n - 2, n - 1)
    for what in ('bad', 'missing'):
        at = H.choice(what, (None,) + spots)
        if at is not None:
            if what == 'bad':
                v = H.value('v', Spec(('none', 'int', 'str')))
                pairs[names[at]] = v
                if not isinstance(v, int):
                    exp.add(names[at])
            else:
                pairs.pop(names[at])
                exp.discard(names[at])
                exp.add(names[at])
    kw = flags(H)
    if kw.get('ignore_missing') and H.choice('missing', (None,) + spots) is not None:
        exp.discard(names[H.choice('missing', (None,) + spots)])
    m = H.choice('unknown', (0, 1, 9))
    for i in range(m):
        pairs['other%d' % i] = None
        if not kw.get('ignore_extra'):
            exp.add('other%d' % i)
    if H.flip('reversed'):
        pairs = {k: pairs[k] for k in list(pairs)[::-1]}
    ok, r = H.attempt(oblate.validate_types, types, pairs, **kw)
    if not exp:
        H.check(ok and r is None, 'accepted')
        H.cover('accepted')
        return
    H.check(not ok and isinstance(r, oblate.TypeValidationError), 'rejected')
    H.check(set(r.errors) == exp and len(r.errors) == len(exp), 'exactly the offending keys')
    text = H.text(r)
    H.check(all([k in text for k in exp]), 'the text names the keys')
    H.cover('rejected')


ALLC = ('accepted', 'rejected', 'bad value', 'unknown', 'unknown ignored', 'missing', 'missing ignored')
fixed.covers = ALLC + ('many',)
symbolic_keys.covers = other_mappings.covers = ALLC
large.covers = same_object.covers = ('accepted', 'rejected')
def unprintable(H):
    """Values and keys without a text or representation are reported like any others."""
    v = UNPRINTABLE[H.choice('value', tuple(range(len(UNPRINTABLE))))]
    tp = H.choice('type', ('str', 'union', 'list', 'any', 'tuple', 'dict'))
    tps = {'str': str, 'union': typing.Union[str, bytes], 'list': typing.List[typing.Union[str, bytes]], 'any': typing.Any, 'tuple': typing.Tuple[str, typing.Optional[str]],
           'dict': typing.Dict[typing.Any, typing.Optional[str]]}
    val = {'list': [v], 'tuple': (v, v), 'dict': {'a': v}}.get(tp, v)
    values = {'k': val, 'm': 1}
    extra = H.flip('extra')
    if extra:
        values['u'] = v
    types = {'k': tps[tp], 'm': int, 'q': str}
    ok, r = H.attempt(oblate.validate_types, types, values, ignore_missing=True)
    want = ([] if tp == 'any' else ['k']) + (['u'] if extra else [])
    H.check(ok == (not want), 'raised exactly when some key is offending')
    if want:
        H.check(isinstance(r, oblate.TypeValidationError), 'with TypeValidationError')
        H.check(sorted(r.errors) == want and all(len(x) >= 1 for x in r.errors.values()), 'mapping exactly the offending keys')
        H.cover('rejected')
    else:
        H.cover('accepted')


def odd_keys(H):
    """Keys are told apart by equality, on both sides."""
    first, second = H.choice('first', ODD_KEYS), H.choice('second', (None,) + tuple(range(len(ODD_KEYS))) if H.thorough else (None, 0, 5, 7, 15))
    pairs = [('a', H.value('a', Spec(('int', 'str'))))] if H.flip('has a') else []
    pairs.append((first, H.value('v', Spec(('int', 'none', 'list'), elem=Spec(('int', 'str')), maxlen=1))))
    if second is not None and ODD_KEYS[second] != first:
        pairs.append((ODD_KEYS[second], 5))
    types = {n: TYPES['b'] if n in ('A', '') else int for n in (ODD_NAMES if H.flip('all') else ('a', '1', 'A'))}
    if H.flip('other types'):
        types.update({n: int for n in (None, 2, b'a', ('a',))})
    kw = flags(H)
    ok, r = H.attempt(oblate.validate_types, types, dict(pairs), **kw)
    bad, missing = [], [n for n in types if not any([n == k for k, _ in pairs])]
    for k, v in pairs:
        if k in types:
            t = types[k]
            if not (isinstance(v, int) if t is int else v is None or isinstance(v, str)):
                bad.append(k)
        elif not kw.get('ignore_extra'):
            bad.append(k)
    if not kw.get('ignore_missing'):
        bad += missing
    H.check(ok == (not bad), 'raised exactly when some key is offending')
    if bad:
        H.check(isinstance(r, oblate.TypeValidationError), 'with TypeValidationError')
        H.check(len(r.errors) == len(bad) and all([k in r.errors and len(r.errors[k]) > 0 for k in bad]), 'mapping exactly the offending keys')
        H.check(sorted([repr(k) for k in r.errors]) == sorted([repr(k) for k in bad]) or any([isinstance(k, (str, float, bool)) for k in bad]), 'the keys themselves')
        H.cover('rejected')
    else:
        H.cover('accepted')


odd_keys.covers = ('accepted', 'rejected')
unprintable.covers = ('accepted', 'rejected')
SCENARIOS = dict(unprintable=unprintable, fixed=fixed, symbolic_keys=symbolic_keys, other_mappings=other_mappings, same_object=same_object, large=large, odd_keys=odd_keys)
