"""C14: Boolean fields convert exactly the configured words."""
import oblate
from oblate import fields
from common import *

BOUNDS = ('every value of the listed kinds (arbitrary integers, strings, quarter-valued floats, special floats, containers of up to 1 element, '
          'opaque objects, subclasses); word lists of up to 2 (thorough: 3) arbitrary words each, given as list, tuple or set, or left at the default')
ASSUMPTIONS = ['word lists are collections of strings']
TRUE = ('TRUE', 'True', 'true', 'YES', 'Yes', 'yes', '1')
FALSE = ('FALSE', 'False', 'false', 'NO', 'No', 'no', '0')
ANYV = Spec(('none', 'bool', 'int', 'float', 'fspecial', 'str', 'bytes', 'list', 'tuple', 'set', 'dict', 'obj', 'intsub', 'strsub', 'floatsub'), maxlen=1)


class Coded(fields.Boolean):
    def format_error(self, code, context):
        return 'code:%s' % (code,)


class Unstr:
    def __str__(self):
        raise KeyError('no text')

    def __repr__(self):
        return '<Unstr>'


class Yes:
    """Its text is a word."""
    def __str__(self):
        return 'yes'


def expected(H, v, strict, none, true, false):
    """('ok', value) | ('error', code); decided for this path."""
    if v is None:
        return ('ok', None) if none else ('error', 'field.none_disallowed')
    if isinstance(v, bool):
        return 'ok', v
    if strict:
        return 'error', 'boolean.invalid_datatype'
    try:
        t = H.text(v)
    except Exception:
        return 'error', 'boolean.coercion_failed'
    if H.Or(*[H.eq(t, w) for w in true]):
        return 'ok', True
    if H.Or(*[H.eq(t, w) for w in false]):
        return 'ok', False
    return 'error', 'boolean.coercion_failed'


def run(H, S, v, strict, none, true=TRUE, false=FALSE, old=None):
    exp = expected(H, v, strict, none, true, false)
    op = H.choice('op', ('load', 'update', 'set'))
    if op == 'load':
        ok, r = H.attempt(S, {'k': v})
        s = r
    else:
        old = H.flip('old')
        s = S({'k': old})
        ok, r = H.attempt(s.update, {'k': v}) if op == 'update' else H.attempt(setattr, s, 'a', v)
    if exp[0] == 'ok':
        H.check(ok, 'the value is accepted')
        if exp[1] is None:
            H.check(s.a is None, 'None is stored')
        else:
            H.check(isinstance(s.a, bool), 'a Boolean is stored')
            H.check(H.same(s.a, exp[1]), 'the right Boolean')
            H.cover('accepted')
            H.cover('true' if s.a else 'false')
    else:
        H.check(not ok and isinstance(r, oblate.ValidationError), 'a rejection is a validation error')
        H.check(len(r.errors) == 1 and r.errors[0].key == 'k' and r.errors[0].message == 'code:' + exp[1], 'exactly the documented error')
        if op != 'load':
            H.check(s.a is old, 'the previous value is kept')
        H.cover('rejected')


def defaults(H):
    strict, none = H.flip('strict'), H.flip('none')

    class S(oblate.Schema):
        a = Coded(strict=strict, none=none, load_key='k') if not strict or H.flip('explicit') else Coded(none=none, load_key='k')
    run(H, S, H.value('v', ANYV), strict, none)


def words(H):
    """Any configured words (overlapping, empty, default ones included), any string or integer."""
    n = H.bound(2, 3)
    strict = H.flip('strict') if H.thorough else False
    kw, lists = {}, {}
    for name, dflt in (('true_values', TRUE), ('false_values', FALSE)):
        k = H.choice(name, ('default',) + tuple(range(n + 1)))
        if k == 'default':
            lists[name] = dflt
            if H.flip(name + '.none'):
                kw[name] = None
        else:
            ws = [H.str('%s.%d' % (name, i)) for i in range(k)]
            lists[name] = list(ws)
            kw[name] = ws if H.flip(name + '.list') else tuple(ws)

    class S(oblate.Schema):
        a = Coded(strict=strict, load_key='k', **kw)
    v = H.value('v', Spec(('str', 'int', 'bool')))
    run(H, S, v, strict, False, lists['true_values'], lists['false_values'], old=True)


def objects(H):
    """Unusual values."""
    v = H.choice('value', (Unstr(), Yes(), 1.0, 0, 1, 'yEs', ' yes', 'yes ', '01', 'nO', '', 2, ('yes',), ['1'], b'1', 0.0, -1, 'Trueyes', 'none', bool))

    class S(oblate.Schema):
        a = Coded(strict=False, load_key='k')
    run(H, S, v, False, False)


def independent(H):
    """Word lists of one field do not influence another field or the class."""
    w = H.str('w')

    class S(oblate.Schema):
        a = Coded(strict=False, true_values=[w], false_values=[])
        b = Coded(strict=False)
        c = fields.Boolean(strict=False, false_values=[w])
        d = fields.Boolean(none=True, default=None)
    v = H.value('v', Spec(('str', 'bool')))
    e = {'a': expected(H, v, False, False, [w], []), 'b': expected(H, v, False, False, TRUE, FALSE), 'c': expected(H, v, False, False, TRUE, [w])}
    ok, r = H.attempt(S, {'a': v, 'b': v, 'c': v})
    bad = sorted(n for n in e if e[n][0] != 'ok')
    if bad:
        H.check(not ok and isinstance(r, oblate.ValidationError) and sorted(r.raw()) == bad, 'exactly the fields without a matching word fail')
        H.cover('rejected')
    else:
        H.check(ok, 'accepted')
        H.check(H.And(*[H.same(getattr(r, n), e[n][1]) for n in e]), 'each field uses its own words')
        H.check(r.d is None, 'default')
        H.cover('accepted')
    H.check(tuple(fields.Boolean.TRUE_VALUES) == TRUE and tuple(fields.Boolean.FALSE_VALUES) == FALSE, 'the documented defaults')


def subclass(H):
    """A subclass with other default words; explicit lists replace them, and the library's own defaults stay."""
    t, f = H.str('t'), H.str('f')
    kw, own = {}, {}
    if H.flip('own true'):
        own['TRUE_VALUES'] = (t, '1')
    if H.flip('own false'):
        own['FALSE_VALUES'] = (f,)
    Sub = type('Sub', (Coded,), own)
    true, false = own.get('TRUE_VALUES', TRUE), own.get('FALSE_VALUES', FALSE)
    x = H.str('x')
    which = H.choice('explicit', ('none', 'true', 'false'))
    if which == 'true':
        kw['true_values'] = true = [x]
    elif which == 'false':
        kw['false_values'] = false = (x,)

    class S(oblate.Schema):
        a = Sub(strict=False, load_key='k', **kw)
    run(H, S, H.value('v', Spec(('str', 'int', 'bool'))), False, False, true, false)
    H.check(tuple(fields.Boolean.TRUE_VALUES) == TRUE and tuple(fields.Boolean.FALSE_VALUES) == FALSE, 'the documented defaults')


for f in (subclass, defaults, words, objects):
    f.covers = ('accepted', 'rejected', 'true', 'false')
independent.covers = ('accepted', 'rejected')
SCENARIOS = dict(defaults=defaults, words=words, objects=objects, subclass=subclass, independent=independent)
