"""C19: Length accepts exactly the sizes within its limits."""
import oblate
from oblate import fields, validate
from common import *

BOUNDS = ('all integer limits (negative, zero, crossed; no bound); 21 unusual texts (line breaks, blanks, NUL, combining and joined characters, surrogates, 4000 characters); strings of every length (symbolic, no bound) and user-defined sized objects '
          'of every length up to 2^62; lists, tuples, sets, frozensets, dicts, bytes and other containers of up to 5 (thorough: 8) elements')
ASSUMPTIONS = ['limits are integers']


class SizedObj:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def _sx_len(self):
        return self.n


class FalsySized(SizedObj):
    """Its truth says nothing about its size."""
    def __bool__(self):
        return False


class TruthySized(SizedObj):
    def __bool__(self):
        return True


def limits(H):
    """(keyword arguments, formula of acceptance)."""
    form = H.choice('form', ('min', 'max', 'both', 'exact'))
    if form == 'min':
        a = H.int('min')
        return dict(min=a), lambda n: a <= n, form
    if form == 'max':
        b = H.int('max')
        return dict(max=b), lambda n: n <= b, form
    if form == 'both':
        a, b = H.int('min'), H.int('max')
        return dict(min=a, max=b), lambda n: H.And(a <= n, n <= b), form
    x = H.int('exact')
    return dict(exact=x), lambda n: H.eq(n, x), form


def judge(H, v, value):
    ok, r = H.attempt(v, None, value, None)
    if not ok:
        H.check(isinstance(r, ValueError), 'rejection is a ValueError')
        H.check(H.Not(H.eq(H.text(r), '')), 'rejection has a message')
    return ok


def any_length(H):
    kw, ref, form = limits(H)
    v = validate.Length(**kw)
    if H.flip('str'):
        x = H.str('value')
        n = len(x)
    else:
        n = H.int('n', 0, 2 ** 62)
        x = H.choice('sized', (SizedObj, FalsySized, TruthySized))(n)
    ok = judge(H, v, x)
    H.cover(form + (' accepted' if ok else ' rejected'))
    H.check(H.iff(ok, ref(n)), 'accepted exactly when the length is within the limits')


def twice(H):
    """One validator judges any number of values, each on its own."""
    kw, ref, form = limits(H)
    v = validate.Length(**kw)
    n, m = H.int('n', 0, 2 ** 62), H.int('m', 0, 2 ** 62)
    a = judge(H, v, SizedObj(n))
    b = judge(H, v, SizedObj(m))
    H.check(H.iff(a, ref(n)), 'first value')
    H.check(H.iff(b, ref(m)), 'second value')
    H.cover('done')


def zero(H):
    """A limit of zero is a limit."""
    kw, ref = H.choice('form', ((dict(min=0), lambda n: n >= 0), (dict(max=0), lambda n: H.eq(n, 0)), (dict(exact=0), lambda n: H.eq(n, 0)), (dict(min=0, max=0), lambda n: H.eq(n, 0)),
                                (dict(min=0, max=3), lambda n: n <= 3), (dict(min=-2, max=0), lambda n: H.eq(n, 0)), (dict(min=1, max=0), lambda n: False)))
    x = H.str('value')
    ok = judge(H, validate.Length(**kw), x)
    H.check(H.iff(ok, ref(len(x))), 'a limit of zero is a real limit')
    H.cover('accepted' if ok else 'rejected')


def containers(H):
    kw, ref, form = limits(H)
    k = H.choice('kind', ('list', 'tuple', 'set', 'frozenset', 'dict', 'mapping', 'bytes', 'range', 'listsub', 'strsub'))
    n = H.choice('len', tuple(range(H.bound(6, 9))))
    x = {'list': lambda: [0] * n, 'tuple': lambda: (None,) * n, 'set': lambda: set(range(n)), 'frozenset': lambda: frozenset(range(n)), 'dict': lambda: dict.fromkeys(range(n)),
         'mapping': lambda: H.K.UserMapping([(i, i) for i in range(n)]), 'bytes': lambda: b'x' * n, 'range': lambda: range(n), 'listsub': lambda: H.K.ListSub([False] * n),
         'strsub': lambda: H.K.StrSub('ä' * n)}[k]()
    ok = judge(H, validate.Length(**kw), x)
    H.cover(k + (' accepted' if ok else ' rejected'))
    H.check(H.iff(ok, ref(n)), 'accepted exactly when the length is within the limits')


TEXTS = ('a\n', '\n', ' ', ' a ', '\ta', 'a\r\n', 'a\x00b', 'e\u0301', '\U0001f468\u200d\U0001f469\u200d\U0001f467', '\ud83d', 'ß', 'İ', '\u200b', '\ufeffa', 'aA', '"a"', '{}', '%s', '\\n', 'a' * 255, 'ab' * 2000)


def spellings(H):
    """The size of a text is its number of code points, whatever they are."""
    kw, ref, form = limits(H)
    x = TEXTS[H.choice('text', tuple(range(len(TEXTS))))]
    kind = H.choice('kind', ('str', 'strsub', 'bytes', 'list'))
    v = {'str': lambda: x, 'strsub': lambda: H.K.StrSub(x), 'bytes': lambda: x.encode('utf-32-le', 'surrogatepass'), 'list': lambda: list(x)}[kind]()
    ok = judge(H, validate.Length(**kw), v)
    H.check(H.iff(ok, ref(len(x) * (4 if kind == 'bytes' else 1))), 'accepted exactly when the length is within the limits')
    H.cover(form + (' accepted' if ok else ' rejected'))


def refused(H):
    """Creation without limits, or mixing exact with another limit."""
    a, b, x = H.int('a'), H.int('b'), H.int('x')
    kw = H.choice('kw', ({}, {'exact': x, 'min': a}, {'exact': x, 'max': b}, {'exact': x, 'min': a, 'max': b}, {'exact': 0, 'min': 0}, {'exact': 0, 'max': 0}))
    ok, r = H.attempt(validate.Length, **kw)
    H.check(not ok and isinstance(r, TypeError), 'refused with TypeError')
    H.cover('refused')


def on_field(H):
    kw, ref, form = limits(H)
    kind = H.choice('field', ('string', 'list', 'dict'))
    v = validate.Length(**kw)
    if kind == 'string':
        val, old, fld = H.str('value'), H.str('old'), lambda: fields.String(validators=[v])
    else:
        n, m = H.choice('n', (0, 1, 2, 3)), H.choice('m', (0, 2))
        if kind == 'list':
            val, old, fld = [1] * n, [2] * m, lambda: fields.List(int, validators=[v])
        else:
            val, old, fld = {str(i): i for i in range(n)}, {str(i): None for i in range(m)}, lambda: fields.Dict(validators=[v])
    S = type(oblate.Schema)('S', (oblate.Schema,), {'f': fld(), '__module__': __name__})
    op = H.choice('op', ('load', 'update', 'set'))
    if op == 'load':
        ok, r = H.attempt(S, {'f': val})
        s = r
    else:
        ok0, s = H.attempt(S, {'f': old})
        H.check(H.iff(ok0, ref(len(old))), 'first value')
        if not ok0:
            return
        ok, r = H.attempt(s.update, {'f': val}) if op == 'update' else H.attempt(setattr, s, 'f', val)
        H.check(s.f is (val if ok else old), 'stored exactly when accepted')
    H.check(H.iff(ok, ref(len(val))), 'the field accepts exactly the lengths within the limits')
    if not ok:
        H.check(isinstance(r, oblate.ValidationError) and list(r.raw()) == ['f'] and len(r.raw()['f']) == 1, 'reported as one validation error')
    H.cover(op + (' accepted' if ok else ' rejected'))


spellings.covers = any_length.covers = tuple(f + r for f in ('min', 'max', 'both', 'exact') for r in (' accepted', ' rejected'))
twice.covers = ('done',)
zero.covers = ('accepted', 'rejected')
containers.covers = tuple(k + r for k in ('list', 'tuple', 'set', 'frozenset', 'dict', 'mapping', 'bytes', 'range', 'listsub', 'strsub') for r in (' accepted', ' rejected'))
refused.covers = ('refused',)
on_field.covers = tuple(o + r for o in ('load', 'update', 'set') for r in (' accepted', ' rejected'))
SCENARIOS = dict(any_length=any_length, twice=twice, zero=zero, containers=containers, spellings=spellings, refused=refused, on_field=on_field)
