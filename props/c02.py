"""C02: validation errors are complete and exact."""
import oblate
import model
from oblate import fields, validate
from common import *

BOUNDS = ('schemas of 1-3 fields, data of up to 3 entries (arbitrary string keys in one scenario), up to 2 raw and 2 other validators '
          'per field, nested lists of messages up to 2; construction, update() of a constructed schema and assignment')
ASSUMPTIONS = ['messages of failing user code are distinct fixed texts, so every reported error can be traced to its cause',
               'the wording of library messages is not compared (format_error returns the error code)']
OUT = ('ok', 'value', 'assert', 'field', 'empty')


def compare(H, w, descr, entries, r, p):
    """The ValidationError r reports exactly the predicted errors."""
    obs = observed_errors(descr, entries, r)
    H.check(same_multiset(obs, p.errors), 'reported errors are exactly the failures')
    raw = r.raw()
    keys = [e.key for e in r.errors]
    H.check(sum(len(v) for v in raw.values()) == len(p.errors), 'raw form has one message per failure')
    for f in descr:
        mine = [o[2] for o in p.errors if o[1] == f.name and o[0] == 'f']
        got = raw.get(f.key, [])
        H.check(sorted(mine) == sorted(got), 'messages under the input key of the field')
        order = [m for m in p.verrs.get(f.name, []) if m.startswith('val:')]
        seen = [m for m in got if m in order]
        H.check(seen == order, 'errors of validators: raw first, then registration order')
    for j, (k, _) in enumerate(entries):
        if find(descr, k) is None:
            n = len([x for x in keys if x == k])
            H.check(n == (1 if ('u', j) in p.errors else 0), 'one error per unknown key')


def load(H, w, cls, descr, entries, ignore=False):
    w.begin('op')
    kw = {'ignore_extra': True} if ignore else {}
    ok, r = w.attempt(cls, mapping(H, entries), **kw)
    p = predict(w, descr, entries, 'op', ignore)
    if check_result(H, w, p, ok, r, 'construction'):
        H.out('n', len(r.errors))
        compare(H, w, descr, entries, r, p)


def update(H, w, cls, descr, entries, initial, ignore=False):
    w.begin('init')
    ok, s = w.attempt(cls, initial)
    if not ok:
        return
    w.begin('op')
    kw = {'ignore_extra': True} if ignore else {}
    ok, r = w.attempt(s.update, mapping(H, entries), **kw)
    p = predict(w, descr, entries, 'op', ignore, mode='update')
    if check_result(H, w, p, ok, r, 'update'):
        H.out('n', len(r.errors))
        compare(H, w, descr, entries, r, p)


def validators(H):
    """One field with several validators of both kinds, all outcomes."""
    w = World(H, OUT)
    descr = [F('a', 'ka', none=H.bool('none'), raws=('r1', 'r2'), vals=('v1', 'v2'), vouts=FAIL)]
    cls = make_schema(w, descr)
    entries = [('ka', H.value('v', INPUT))]
    if H.flip('update'):
        w.outs = w.vouts = ('ok',)
        descr2 = [F('a', 'ka', none=True, required=False, raws=('r1', 'r2'), vals=('v1', 'v2'), vouts=FAIL, outs=OUT)]
        descr2[0].none = descr[0].none
        update(H, w, make_schema(w, descr2), descr2, entries, {})
    else:
        load(H, w, cls, descr, entries)


def outcomes(H):
    """Failing validators of every kind, on two fields."""
    w = World(H, OUT)
    descr = [F('a', 'ka', none=True, raws=('r',), vals=('v',)), F('b', none=H.bool('b.none'), required=H.bool('b.req'), outs=FAIL)]
    entries = [('ka', H.value('va', INPUT))]
    n = H.choice('shape', ('alone', 'before', 'after'))
    if n != 'alone':
        entries.insert(1 if n == 'after' else 0, ('b', H.value('vb', INPUT)))
    load(H, w, make_schema(w, descr), descr, entries)


def many(H):
    """Missing, None, rejected and unknown keys together."""
    w = World(H, FAIL)
    descr = [F('a', none=H.bool('a.none')), F('b', 'kb', none=H.bool('b.none'), required=H.bool('b.req')),
             F('c', none=False, required=H.bool('c.req'), vals=('vc',))]
    entries = [(f.key, H.value('v.' + f.name, INPUT)) for f in descr if H.flip('has.' + f.name)]
    x = H.choice('unknown', (0, 1, 2))
    if x:
        entries.insert(0, ('b', H.value('x', INPUT)))            # the attribute name is not an input key
    if x == 2:
        entries.append(('zz', None))
    load(H, w, make_schema(w, descr), descr, entries, ignore=H.flip('ignore') if x else False)


def keys(H):
    """Arbitrary distinct keys."""
    H.universe('a', 'ka', 'b')
    w = World(H, FAIL)
    descr = [F('a', 'ka'), F('b', 'a', required=H.bool('b.req'))]
    entries = [(H.str('k%d' % i), H.value('v%d' % i, INPUT)) for i in range(H.choice('n', H.bound((1, 2), (1, 2, 3))))]
    if H.flip('update'):
        for f in descr:
            f.required = False
        update(H, w, make_schema(w, descr), descr, entries, {})
    else:
        load(H, w, make_schema(w, descr), descr, entries)


def updates(H):
    """update() of several entries with failures anywhere."""
    w = World(H, FAIL)
    descr = [F('a', none=H.bool('a.none'), required=False, raws=('ra',), vals=('va',)),
             F('b', 'kb', none=H.bool('b.none'), required=False, vals=('vb',))]
    entries = [('a', H.value('v.a', INPUT)), ('kb', H.value('v.b', INPUT))]
    if H.flip('reversed'):
        entries = entries[::-1]
    x = H.choice('unknown', ('no', 'first', 'last'))
    if x != 'no':
        entries.insert(0 if x == 'first' else 2, ('b', 1))
    update(H, w, make_schema(w, descr), descr, entries, {})


def assign(H):
    """Assignment reports every failure of its field under the load key."""
    w = World(H, OUT)
    descr = [F('a', 'ka', none=H.bool('none'), required=False, raws=('r1', 'r2'), vals=('v1', 'v2'), vouts=FAIL)]
    s = make_schema(w, descr)({})
    w.begin('op')
    v = H.value('v', INPUT)
    ok, r = w.attempt(setattr, s, 'a', v)
    p = predict(w, descr, [('ka', v)], 'op', False, mode='update')
    if check_result(H, w, p, ok, r, 'assignment'):
        compare(H, w, descr, [('ka', v)], r, p)


def repeated(H):
    """The same validator registered several times and a message equal for several failures are not merged."""
    w = World(H, FAIL)
    n = H.choice('n', (1, 2, 3))
    same = H.flip('same text')
    raw = H.flip('raw')

    def make(i):
        def check(schema, value, context):
            if H.choice('val.%d' % i, FAIL) != 'ok':
                raise ValueError('m' if same else 'm%d' % i)
        return check
    f = Pass(none=False)
    first = make(0)
    vs = [first if H.flip('dup%d' % i) else make(i) for i in range(n)]
    for v in vs:
        f.add_validator(v, raw=raw)
    cls = type(oblate.Schema)('S', (oblate.Schema,), {'a': f, '__module__': __name__})
    ok, r = w.attempt(cls, {'a': H.value('v', NONNULL)})
    exp = []
    for i in range(n):
        j = 0 if vs[i] is first else i
        if H.choice('val.%d' % j, FAIL) != 'ok':
            exp.append('m' if same else 'm%d' % j)
    H.cover('valid' if not exp else 'invalid')
    H.check(ok == (not exp), 'fails exactly when a validator fails')
    if not ok:
        H.check(r.raw() == {'a': exp}, 'one entry per failure, in registration order')


def sequences(H):
    """Validators reporting sequences of messages keep their place."""
    w = World(H, FAIL)
    def make(i):
        def check(schema, value, context):
            how = H.choice('val.%d' % i, ('ok', 'value', 'list', 'tuple', 'one'))
            if how == 'value':
                raise ValueError('%d' % i)
            if how != 'ok':
                t = ['%d.0' % i, '%d.1' % i]
                raise oblate.FieldError(tuple(t) if how == 'tuple' else t if how == 'list' else t[:1])
        return check
    f = Pass()
    for i in range(3):
        f.add_validator(make(i), raw=i == 2)
    cls = type(oblate.Schema)('S', (oblate.Schema,), {'a': f, 'b': Pass(), '__module__': __name__})
    op = H.choice('op', ('load', 'update', 'set'))
    missing = op == 'load' and H.flip('missing')
    ok, r = w.attempt(cls, {'a': 1} if missing else {'a': 1, 'b': 2}) if op == 'load' else (True, None)
    if op != 'load':
        w2 = type(oblate.Schema)('S', (oblate.Schema,), {'a': f.copy(), 'b': Pass(required=False), '__module__': __name__})
        w2.a.required = False
        s = w2({})
        ok, r = w.attempt(s.update, {'a': 1}) if op == 'update' else w.attempt(setattr, s, 'a', 1)
    exp = []
    for i in (2, 0, 1):
        how = H.choice('val.%d' % i, ('ok', 'value', 'list', 'tuple', 'one'))
        exp += [] if how == 'ok' else ['%d' % i] if how == 'value' else ['%d.0' % i] if how == 'one' else ['%d.0' % i, '%d.1' % i]
    want = {}
    if missing:
        want['b'] = ['code:field.field_required']
    if exp:
        want['a'] = exp
    H.cover('invalid' if want else 'valid')
    H.check(ok == (not want), 'fails exactly when a validator fails or the field is missing')
    if not ok:
        H.check(r.raw() == want, 'every message, raw validators first, then registration order')


def structures(H):
    """Built-in fields: one failing value never hides another."""
    class S(oblate.Schema):
        i = fields.Integer()
        s = fields.String(load_key='k')
        l = fields.List(int)
        d = fields.Dict(str, int, none=True)
    n = H.choice('n', (0, 1, 2))
    data = {'i': H.value('i', Spec(('int', 'str', 'none'))), 'k': H.value('s', Spec(('int', 'str', 'none'))),
            'l': [H.value('l%d' % j, Spec(('int', 'str'))) for j in range(n)],
            'd': {'x': H.value('d', Spec(('int', 'str')))} if H.flip('d') else H.value('dd', Spec(('none', 'int')))}
    exp = {}

    def bad(key, count, cond):
        if count and cond:
            exp[key] = count
    bad('i', 1, not isinstance(data['i'], int))
    bad('k', 1, not isinstance(data['k'], str))
    bad('l', len([x for x in data['l'] if not isinstance(x, int)]), True)
    if isinstance(data['d'], dict):
        bad('d', 1, not isinstance(data['d']['x'], int))
    else:
        bad('d', 1, data['d'] is not None)
    ok, r = H.attempt(S, data)
    H.cover('invalid' if exp else 'valid')
    H.check(ok == (not exp), 'fails exactly when a value is wrong')
    if not ok:
        H.check({k: len(v) for k, v in r.raw().items()} == exp, 'exactly the failing keys, with one entry per mismatch')


def volume(H):
    """No limit on the number of errors: fields, unknown keys, validators and messages by the dozen."""
    n = H.choice('n', (3, 40, 130))
    op = H.choice('op', ('construct', 'update'))
    what = H.choice('what', ('values', 'missing', 'unknown', 'validators', 'messages', 'nested', 'items'))
    bad = H.choice('bad', ('all', 'one')) == 'all'
    keys = ['f%d' % i for i in range(n)]

    class In(oblate.Schema):
        x = fields.Integer()

    def fail(message):
        def check(schema, value, context):
            raise oblate.FieldError(message)
        return check
    mk = {'nested': lambda: fields.Object(In, required=False), 'items': lambda: fields.Integer(required=False)}.get(what, lambda: fields.Integer(required=what == 'missing' and op == 'construct'))
    ns = {k: mk() for k in keys}
    ns['__module__'] = __name__
    if what in ('validators', 'messages', 'items'):
        ns['v'] = fields.List(int, required=False)
    if what == 'validators':
        for i in range(n if bad else 1):
            ns['v'].add_validator(fail('m%d' % i), raw=i % 3 == 2)
    if what == 'messages':
        ns['v'].add_validator(fail(['m%d' % i for i in range(n if bad else 1)]))
    S = type(oblate.Schema)('S', (oblate.Schema,), ns)
    failing = keys if bad else [keys[-1]]
    want, data = {}, {}
    if what == 'values':
        data = {k: 'x' if k in failing else 1 for k in keys}
        want = {k: 1 for k in failing}
    elif what == 'missing':
        if op == 'construct':
            data = {k: 1 for k in keys if k not in failing}
            want = {k: 1 for k in failing}
    elif what == 'unknown':
        data = {'u' + k: 1 for k in failing}
        want = {k: 1 for k in data}
    elif what == 'nested':
        data = {k: {'x': 's' if k in failing else 1} for k in keys}
        want = {k: {'x': 1} for k in failing}
    elif what == 'items':
        data = {'v': ['s' if k in failing else 1 for k in keys]}
        want = {'v': len(failing)}
    else:
        data = {'v': [1]}
        want = {'v': n if bad else 1}
    if op == 'construct':
        ok, r = H.attempt(S, data)
    else:
        ok, r = H.attempt(S({}).update, data)
    H.cover('invalid' if want else 'valid')
    H.check(ok == (not want), 'fails exactly when something fails')
    if ok:
        return
    raw, text = r.raw(), str(r)
    H.check(sorted(raw) == sorted(want), 'every failing key is reported')
    for k in want:
        H.check(k in text, 'and named in the text')
        if isinstance(want[k], dict):
            H.check(len(raw[k]) == 1 and list(raw[k][0]) == ['x'] and len(raw[k][0]['x']) == 1, 'with the nested error')
        else:
            H.check(len(raw[k]) == want[k], 'with every message')
    if what in ('validators', 'messages'):
        H.check(sorted(raw['v']) == sorted('m%d' % i for i in range(want['v'])), 'the messages themselves')
    H.check(len(r.errors) == (sum(x if isinstance(x, int) else 1 for x in want.values()) if what != 'messages' else len(r.errors)), 'and no other errors')


def wordless(H):
    """A failure counts whatever is said about it: messages that are empty or false."""
    w = World(H)
    WORDS = {'text': 'm', 'empty': '', 'zero': 0, 'none': None, 'false': False, 'dict': {}, 'frozenset': frozenset()}
    where = H.choice('where', ('load', 'val', 'raw', 'dump', 'schema val'))

    def fail(n):
        how = H.choice('how.' + n, ('ok',) + tuple(WORDS))
        if how != 'ok':
            raise oblate.FieldError(WORDS[how])

    class P(Pass):
        def __init__(self, n, **kw):
            self.n = n
            super().__init__(**kw)

        def value_load(self, value, context):
            if where == 'load' and armed:
                fail(self.n)
            return value

        def value_dump(self, value, context):
            if where == 'dump':
                fail(self.n)
            return value

    def check(n):
        return lambda schema, value, context: fail(n) if armed else None
    armed = []
    ns = {'__module__': __name__}
    for n in ('a', 'b'):
        ns[n] = P(n, required=False)
        if where in ('val', 'raw'):
            ns[n].add_validator(check(n), raw=where == 'raw')
        elif where == 'schema val':
            v = check(n)
            ns['check_' + n] = validate.field(n)(lambda self, value, context, v=v: v(self, value, context))
    S = type(oblate.Schema)('S', (oblate.Schema,), ns)
    op = 'dump' if where == 'dump' else H.choice('op', ('load', 'update', 'set'))
    s = None
    if op != 'load':
        s = S({'a': 1, 'b': 2} if op == 'dump' else {})
    armed.append(True)
    if op == 'load':
        ok, r = w.attempt(S, {'a': 1, 'b': 2})
    elif op == 'update':
        ok, r = w.attempt(s.update, {'a': 1, 'b': 2})
    elif op == 'set':
        ok, r = w.attempt(setattr, s, 'a', 1)
    else:
        ok, r = w.attempt(s.dump)
    want = {}
    for n in ('a',) if op == 'set' else ('a', 'b'):
        how = H.choice('how.' + n, ('ok',) + tuple(WORDS))
        if how != 'ok':
            want[n] = [WORDS[how]]
    H.cover('invalid' if want else 'valid')
    H.check(ok == (not want), 'fails exactly when something fails')
    if not ok:
        H.check(isinstance(r, oblate.ValidationError), 'with a ValidationError')
        H.check({n: [e.message for e in r.errors if e.key == n] for n in want} == want and len(r.errors) == len(want), 'one error per failure')
        H.check(r.raw() == {n: [x if isinstance(x, dict) else str(x) for x in want[n]] for n in want}, 'in the raw form too')


def odd_keys(H):
    """Keys are told apart by equality: those that look like a load key are unknown, and reported as they are."""
    w = World(H)
    op = H.choice('op', ('construct', 'update'))
    names = dict(zip(ODD_NAMES, 'mnopqrst'))
    ns = {n: HField(w, n, outs=('ok',), douts=('ok',), load_key=k, required=k in ('a', '1') and op == 'construct', none=True) for k, n in names.items()}
    ns['__module__'] = __name__
    S = type(oblate.Schema)('S', (oblate.Schema,), ns)
    pairs = [(k, 4) for k in ('a', '1') if H.flip('has ' + k)]
    for n in ('first', 'second') if H.flip('two') else ('first',):
        k = H.choice(n, ODD_KEYS)
        if not any([k == x for x, _ in pairs]):
            pairs.append((k, H.value(n + '.v', Spec(('int', 'none')))))
    w.begin('op')
    if op == 'construct':
        ok, r = w.attempt(S, dict(pairs))
    else:
        s = S({})
        ok, r = w.attempt(s.update, dict(pairs))
    bad = [k for k, _ in pairs if k not in names] + [k for k in ('a', '1') if op == 'construct' and not any([k == x for x, _ in pairs])]
    H.cover('invalid' if bad else 'valid')
    H.check(ok == (not bad), 'fails exactly when a key is unknown or missing')
    if ok:
        s = r if op == 'construct' else s
        H.check(sorted(s.dump()) == sorted([names[k] for k, _ in pairs]), 'the fields of the keys are set')
    else:
        H.check(len(r.errors) == len(bad), 'one error per key')
        for k in bad:
            H.check(len([e for e in r.errors if e.key == k and type(e.key) is type(k)]) == 1, 'of the very key')
            H.check(k in r.raw() and len(r.raw()[k]) == 1, 'in the raw form too')


for f in (odd_keys, wordless, volume, validators, outcomes, many, keys, updates, assign, repeated, sequences, structures):
    f.covers = ('valid', 'invalid')
SCENARIOS = dict(validators=validators, outcomes=outcomes, many=many, keys=keys, updates=updates, assign=assign, repeated=repeated,
                 sequences=sequences, structures=structures, volume=volume, wordless=wordless, odd_keys=odd_keys)

SCENARIOS.update(
    blank=model.run(('errors',), model.FIELD + model.DATA + model.USER, (('update', 'set'),), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False}),
    deviations=model.run(('errors',), model.FIELD + model.DATA + model.USER + ('state', 'format'), (), (2, 4), model.OUTCOMES),
    deviations_update=model.run(('errors',), model.FIELD + model.DATA + model.USER + ('format',), (('update', 'set'),), (2, 3), model.OUTCOMES),
    rich=model.run(('errors',), model.FIELD + model.DATA + model.USER, (), (2, 3), ('ok', 'value'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}, free=('load', 'val')),
    rich_update=model.run(('errors',), model.FIELD + model.DATA + model.USER, ('update',), (2, 3), ('ok', 'value'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}, free=('load', 'val'), plain_init=True),
    many_unknown=model.run(('errors', 'construct', 'update'), model.FIELD + model.DATA + model.USER, (('none', 'update'),), (1, 2), ('ok', 'value', 'list'), base={'unknown': 'four'}, free=('ignore_arg', 'load')),
    wide=wide_scenario(('construct', 'update')),
    scale=scale(('end', 'errors'), ('construct', 'update')),
)
