"""C18: Range accepts exactly the integers in its inclusive bounds."""
import oblate
from oblate import fields, validate

BOUNDS = 'all mathematical integers as bounds and values (no bound); steps of from_standard in -4..4 (quick) / -9..9 (thorough), 12, -60, 1000, -4096 and 10**9; two validators of different bounds used alternately'
ASSUMPTIONS = ['values are integers (the documented input of Range); bounds of Range(a, b) may be given in any order']


def accepts(H, v, value, ctx=None):
    ok, r = H.attempt(v, None, value, ctx)
    if not ok:
        H.check(isinstance(r, ValueError), 'rejection is a ValueError')
        H.check(str(r) != '', 'rejection has a message')
    return ok


def two_args(H):
    a, b, x = H.int('a'), H.int('b'), H.int('x')
    v = validate.Range(a, b)
    ok = accepts(H, v, x)
    H.cover('accepted' if ok else 'rejected')
    H.out('ok', ok)
    H.check(H.iff(ok, H.And(a <= x, x <= b)), 'Range(a, b) accepts exactly a <= x <= b')


def one_arg(H):
    b, x = H.int('b'), H.int('x')
    v = validate.Range(b)
    ok = accepts(H, v, x)
    H.cover('accepted' if ok else 'rejected')
    H.out('ok', ok)
    H.check(H.iff(ok, H.And(0 <= x, x <= b)), 'Range(b) accepts exactly 0 <= x <= b')


def no_arg(H):
    ok, e = H.attempt(validate.Range)
    H.check(not ok and isinstance(e, TypeError), 'Range() is refused with TypeError')
    H.cover('refused')


def standard(H):
    a, b, x = H.int('a'), H.int('b'), H.int('x')
    n = H.bound(4, 9)
    step = H.choice('step', [1, -1] + [s for s in range(-n, n + 1) if s not in (0, 1, -1)] + [12, -60, 1000, -4096, 10 ** 9])
    r = range(a, b, step)
    v = validate.Range.from_standard(r)
    H.check(isinstance(v, validate.Range), 'from_standard returns a Range')
    ok = accepts(H, v, x)
    H.cover('accepted' if ok else 'rejected')
    H.out('ok', ok)
    if step > 0:
        exp = H.And(a <= x, x < b, (x - a) % step == 0)
    else:
        exp = H.And(a >= x, x > b, (a - x) % (-step) == 0)
    H.check(H.iff(ok, exp), 'from_standard(r) accepts exactly the members of r')


def two_validators(H):
    """Validators of different bounds do not share anything."""
    a, b, c, d, x = H.int('a'), H.int('b'), H.int('c'), H.int('d'), H.int('x')
    v = validate.Range(a, b)
    form = H.choice('form', ('two', 'one', 'standard'))
    w = {'two': lambda: validate.Range(c, d), 'one': lambda: validate.Range(d), 'standard': lambda: validate.Range.from_standard(range(c, d))}[form]()
    lo, hi = (0 if form == 'one' else c), (d - 1 if form == 'standard' else d)
    for _ in range(2):
        ok1, ok2 = accepts(H, v, x), accepts(H, w, x)
        H.check(H.iff(ok1, H.And(a <= x, x <= b)), 'the first keeps its bounds')
        H.check(H.iff(ok2, H.And(lo <= x, x <= hi)), 'the second keeps its bounds')
    H.cover('%s %s' % (ok1, ok2))


def on_field(H):
    a, b, x = H.int('a'), H.int('b'), H.int('x')
    form = H.choice('form', ('two', 'std', 'two_twice'))
    v = validate.Range(a, b) if form != 'std' else validate.Range.from_standard(range(a, b + 1))

    class S(oblate.Schema):
        f = fields.Integer(validators=[v, v] if form == 'two_twice' else [v])
        g = fields.Integer(required=False)
        g.add_validator(v)
    inside = H.And(a <= x, x <= b)
    op = H.choice('op', ('load', 'update', 'set'))
    if op == 'load':
        ok, r = H.attempt(S, {'f': x})
    else:
        y = H.int('y', )
        H.assume(H.And(a <= y, y <= b))
        s = S({'f': y, 'g': y})
        if op == 'update':
            ok, r = H.attempt(s.update, {'f': x})
        else:
            ok, r = H.attempt(setattr, s, 'f', x)
        H.check(H.eq(s.f, x if ok else y), 'value stored exactly when accepted')
        H.check(H.eq(s.g, y), 'other field untouched')
    H.cover(op + (' accepted' if ok else ' rejected'))
    H.check(H.iff(ok, inside), 'field accepts exactly the values in range')
    if not ok:
        H.check(isinstance(r, oblate.ValidationError), 'reported as validation error')
        raw = r.raw()
        H.check(list(raw) == ['f'] and len(raw['f']) == (2 if form == 'two_twice' else 1), 'one error per failing validator')


two_args.covers = one_arg.covers = standard.covers = ('accepted', 'rejected')
two_validators.covers = ('True True', 'True False', 'False True', 'False False')
no_arg.covers = ('refused',)
on_field.covers = tuple(o + r for o in ('load', 'update', 'set') for r in (' accepted', ' rejected'))
SCENARIOS = dict(two_args=two_args, one_arg=one_arg, no_arg=no_arg, standard=standard, two_validators=two_validators, on_field=on_field)
