"""C29: any error message can be reported, grouped and printed."""
import oblate
import model
from oblate import fields
from oblate.exceptions import FieldError
from common import *

BOUNDS = ('messages: strings (symbolic), numbers, None, objects, lists, tuples, sets (of up to 2 messages), dictionaries, all nested up to depth 2 '
          '(thorough: 3), errors of other schemas wrapped in any way; 1-4 errors over known and unknown keys (symbolic); any operation; nesting of schemas up to 2; keys and messages that have no text')
ASSUMPTIONS = ['messages are not cyclic']


class Text:
    """A message that is no string."""
    def __init__(self, t):
        self.t = t

    def __str__(self):
        return self.t


LEAVES = ('str', 'empty', 'int', 'none', 'object', 'float', 'bytes', 'class')
NESTS = ('list', 'tuple', 'set', 'dict', 'empty list', 'empty dict', 'error', 'copied error', 'errors')


def leaf(kind, ident):
    return {'str': 'm' + ident, 'empty': '', 'int': 0, 'none': None, 'object': Text('t' + ident), 'float': 1.5, 'bytes': b'b', 'class': Text}[kind]


def message(H, ident, depth):
    """A message of any structure (concrete leaves)."""
    kind = H.choice('kind.' + ident, LEAVES + NESTS if depth else ('str', 'none', 'object'))
    if kind in LEAVES:
        return leaf(kind, ident)
    if kind == 'list':
        return [message(H, ident + '0', depth - 1), 'l' + ident]
    if kind == 'tuple':
        return ('f' + ident, message(H, ident + '0', depth - 1))
    if kind == 'set':
        return {'s' + ident, 2}
    if kind == 'dict':
        return {'k' + ident: message(H, ident + '0', depth - 1), 1: 'd' + ident}
    if kind == 'empty list':
        return []
    if kind == 'empty dict':
        return {}
    if kind == 'error':
        return FieldError('e' + ident)
    if kind == 'copied error':
        return other_errors(['c' + ident, 'x' + ident])[0]
    return {'n' + ident: [FieldError(message(H, ident + '0', depth - 1))]}


def other_errors(msg):
    """The errors of another schema failing with the message."""
    class O(oblate.Schema):
        z = fields.Any()

        @oblate.validate.field(z)
        def check_z(self, value, context):
            raise FieldError(msg)
    try:
        O({'z': 1})
    except oblate.ValidationError as e:
        return e.errors
    return []


def expand(m):
    """The messages of the errors a message becomes."""
    return list(m) if isinstance(m, (list, tuple, set)) else [m]


def raw(m):
    if isinstance(m, FieldError):
        return raw(m.message)
    if isinstance(m, dict):
        return dict((k, raw(v)) for k, v in m.items())
    if isinstance(m, list):
        return [raw(x) for x in m]
    return str(m)


def leaves(m):
    """Texts that the printed form must contain."""
    if isinstance(m, FieldError):
        return leaves(m.message)
    if isinstance(m, dict):
        return [x for v in m.values() for x in leaves(v)] + [str(k) for k in m]
    if isinstance(m, (list, tuple, set)):
        return [x for v in m for x in leaves(v)]
    if isinstance(m, Text):
        return []       # printed by repr inside containers
    return [str(m)]


class Fails(fields.Field):
    def __init__(self, f, **kw):
        self.f = f
        super().__init__(**kw)

    def value_load(self, value, context):
        self.f('load', context)
        return value

    def value_dump(self, value, context):
        self.f('dump', context)
        return value


def structure(H):
    """Messages of any structure, raised anywhere."""
    where = H.choice('where', ('construct', 'update', 'set', 'dump', 'validator', 'raw validator', 'format', 'subclass'))
    seen = []
    armed = []
    state = H.value('state', ANY)
    deep = H.bound(2, 3) if where in ('construct', 'dump') else 1

    def f(what, context):
        if armed and (what == 'dump') == (where == 'dump'):
            m = message(H, 'a', deep)
            seen.append((m, context))
            raise (SubFieldError if where == 'subclass' else FieldError)(m, state)

    class X(Fails):
        def format_error(self, code, context):
            m = message(H, 'a', 1)
            seen.append((m, None))
            return FieldError(m, state)

    class S(oblate.Schema):
        a = X(f if where not in ('validator', 'raw validator', 'format') else lambda *x: None, load_key='ka')
        b = fields.Any(required=False)
    s = None
    if where not in ('construct', 'format'):
        s = S({'ka': 1, 'b': 2})
    armed.append(1)
    if where.endswith('validator'):
        S.a.add_validator(lambda schema, value, context: f('load', context), raw=where.startswith('raw'))
    if where == 'construct':
        ok, r = H.attempt(S, {'ka': 1})
    elif where == 'format':
        ok, r = H.attempt(S, {'ka': None})
    elif where == 'set' or where.endswith('validator'):
        ok, r = H.attempt(setattr, s, 'a', 1)
    elif where == 'dump':
        ok, r = H.attempt(s.dump)
    else:
        ok, r = H.attempt(s.update, {'ka': 1})
    H.check(not ok and isinstance(r, oblate.ValidationError), 'a ValidationError, whatever the message')
    H.check(len(seen) == 1, 'one failure')
    m, context = seen[0]
    ms = expand(m)
    H.check(len(r.errors) == len(ms), 'one error per message')
    got = [e.message for e in r.errors]
    H.check(all(any(x is y for y in got) for x in ms), 'the very messages')
    if not isinstance(m, set):
        H.check(all(x is y for x, y in zip(ms, got)), 'in order')
    for e in r.errors:
        H.check(e.key == 'ka' and e.field is S.a and e.schema is r.schema and H.same(e.state, state), 'same key, field, schema and state')
        if context is not None:
            H.check(e.context is context, 'same context')
        else:
            H.check(e.context.field is S.a and e.context.schema is r.schema, 'context of the value')
        H.check(isinstance(e, SubFieldError if where == 'subclass' else FieldError), 'same kind of error')
        if not isinstance(e.message, (FieldError, dict, list, tuple, set)):
            H.check(str(e) == str(e.message), 'the text of each error is its message')
    if s is not None:
        H.check(r.schema is s, 'the schema')
    out = r.raw()
    exp = [raw(x) for x in ms]
    if exp:
        H.check(list(out) == ['ka'] and len(out['ka']) == len(exp), 'grouped under the key, nothing lost')
        H.check(same_multiset(out['ka'], exp) if isinstance(m, set) else out['ka'] == exp, 'structure kept, leaves as text')
        H.cover('reported')
    else:
        H.check(not out, 'nothing to report')
    H.check(same_multiset([r.raw()], [out]), 'the same every time')
    text = str(r)
    if exp:
        H.check('ka' in text, 'the text names the key')
    for x in ms:
        for t in ([x.t] if isinstance(x, Text) else leaves(x)):
            H.check(t in text, 'the text names every message')


def grouping(H):
    """Several errors over known and unknown keys, with symbolic keys and messages."""
    texts = {}

    def f(what, context):
        pass
    H.universe('ka', 'b', 'a')
    n = H.choice('validators', (0, 1, 2))
    unknown = H.choice('unknown', (0, 1))
    bad_b = H.choice('b', ('absent', 'none', 'value'))

    class S(oblate.Schema):
        a = fields.Any(load_key='ka')
        b = fields.Any(required=False)

    def add(i):
        def v(schema, value, context):
            t = texts[i] = H.str('text%d' % i, maxlen=2)
            H.assume(H.Not(H.eq(t, '')))
            if i == 1 and H.flip('as list'):
                raise FieldError([t, 'more'])
            raise FieldError(t) if i else ValueError(t)
        S.a.add_validator(v)
    for i in range(n):
        add(i)
    es = [('ka', 1)] if H.flip('a') else []
    if unknown:
        k = H.str('key', maxlen=3)
        H.assume(H.And(H.Not(H.eq(k, 'ka')), H.Not(H.eq(k, 'b'))))
        es.insert(0, (k, 2))
    if bad_b != 'absent':
        es.append(('b', None if bad_b == 'none' else 3))
    ok, r = H.attempt(S, mapping(H, es))
    exp = []
    if unknown:
        exp.append((k, 1, []))
    if not any(x == 'ka' and y == 1 for x, y in es):
        exp.append(('ka', 1, []))
    elif n:
        more = n == 2 and H.flip('as list')
        exp.append(('ka', n + more, [texts[i] for i in range(n)] + ['more'] * more))
    if bad_b == 'none':
        exp.append(('b', 1, []))
    H.check(ok == (not exp), 'fails when there is an error')
    if ok:
        H.cover('valid')
        return
    H.cover('invalid')
    out = r.raw()
    H.check(isinstance(out, dict), 'a dictionary')
    H.check(len(out) == len(exp), 'one entry per key')
    text = str(r)
    for key, count, ts in exp:
        found = [v for k2, v in out.items() if H.eq(k2, key)]
        H.check(len(found) == 1 and isinstance(found[0], list) and len(found[0]) == count, 'all errors of the key, nothing lost')
        for t, got in zip(ts, found[0]):
            H.check(H.eq(t, got), 'the message itself')
        H.check(H.contains(text, key), 'the text names the key')
        for got in found[0]:
            H.check(H.contains(text, got), 'and each message')
    H.check(len(r.errors) == sum(c for _, c, _ in exp), 'one error each')


def keys(H):
    """Keys that are no strings."""
    key = H.choice('key', (0, None, True, 1.5, ('t', 1), b'b', ''))

    class S(oblate.Schema):
        a = fields.Any(required=False)
    s = S({})
    ok, r = H.attempt(S, {key: 1, 'a': None}) if H.flip('construct') else H.attempt(s.update, {'a': None, key: 1})
    H.check(not ok and isinstance(r, oblate.ValidationError), 'any key can be reported')
    out = r.raw()
    H.check(len(out) == 2 and key in out and len(out[key]) == 1 and isinstance(out[key][0], str), 'grouped under it')
    H.check('a' in out and len(out['a']) == 1, 'with the others')
    H.check(str(key) in str(r), 'and named in the text')
    e = [x for x in r.errors if x.key == key][0]
    H.check(e.field is None, 'no field')


def standard(H):
    """Errors of standard types with odd arguments: their text is the message."""
    exc = H.choice('exc', (ValueError, AssertionError, SubValueError, UnicodeError))
    args = H.choice('args', (('m',), ('',), (), (0,), (None,), ('m', 'n'), (['m'],), ({'k': 'v'},), (Text('t'),), ('{x} %s',), ('│\n└',)))
    where = H.choice('where', ('load', 'dump', 'validator'))

    def f(what, context):
        if what == where:
            raise exc(*args)

    class S(oblate.Schema):
        a = Fails(f, load_key='ka')
    s = None
    if where == 'validator':
        S.a.add_validator(lambda schema, value, context: f('validator', context))
    if where == 'dump':
        s = S({'ka': 1})
        ok, r = H.attempt(s.dump)
    else:
        ok, r = H.attempt(S, {'ka': 1})
    H.check(not ok and isinstance(r, oblate.ValidationError), 'a validation error')
    H.check(len(r.errors) == 1, 'one error')
    m = str(exc(*args))
    out = r.raw()
    H.check(list(out) == ['ka'] and len(out['ka']) == 1, 'one message')
    H.check(out['ka'][0] == m if m else bool(out['ka'][0]), 'the text of the exception, or a default when there is none')
    H.check(out['ka'][0] in str(r) and 'ka' in str(r), 'printed')


def nested(H):
    """Messages inside nested schemas keep their structure and are printed at their level."""
    def f(what, context):
        if what == mode:
            raised[context.field.load_key] = m = message(H, context.field.name, 1)
            raise FieldError(m)
    raised = {}
    mode = H.choice('mode', ('load', 'dump'))
    depth = H.choice('depth', (1, 2))

    class In(oblate.Schema):
        x = Fails(f if H.flip('x') else lambda *a: None, load_key='kx')
        y = Fails(f, required=False)

    class Mid(oblate.Schema):
        n = fields.Object(In, load_key='kn')

    class Out(oblate.Schema):
        m = fields.Object(Mid, required=False)
    data = {'kn': {'kx': 1, 'y': 2}} if H.flip('y') else {'kn': {'kx': 1}}
    cls, top = Mid, 'kn'
    if depth == 2:
        cls, data, top = Out, {'m': data}, 'm'
    ok, r = H.attempt(cls, data)
    if mode == 'dump':
        H.check(ok, 'valid')
        ok, r = H.attempt(r.dump)
    if ok:
        H.cover('valid')
        return
    H.check(isinstance(r, oblate.ValidationError), 'a validation error')
    out, text = r.raw(), str(r)
    inner = out[top][0]
    H.check(list(out) == [top] and len(out[top]) == 1, 'one nested error')
    if depth == 2:
        H.check(list(inner) == ['kn'] and len(inner['kn']) == 1, 'nested twice')
        inner = inner['kn'][0]
        H.check('kn' in text, 'the text names every level')
    exp = raised
    total = 0
    for k in exp:
        ms = expand(exp[k])
        total += len(ms)
        if not ms:
            continue
        H.check(k in inner, 'every failing inner key')
        es = [raw(x) for x in ms]
        H.check(same_multiset(inner[k], es) if isinstance(exp[k], set) else inner[k] == es, 'with the structure of its messages')
        H.check(k in text, 'named in the text')
        for x in ms:
            for t in ([x.t] if isinstance(x, Text) else leaves(x)):
                H.check(t in text, 'with every message')
    H.check(sum(map(len, inner.values())) == total, 'and nothing else')
    H.cover('nested')


def wrapped(H):
    """User code reporting the errors of another schema in one of its own fields."""
    how = H.choice('how', ('errors', 'tuple', 'raw', 'text', 'error', 'by key', 'first'))
    msg = H.choice('msg', ('MSG1', ['MSG1', 'MSG2'], {'k': 'MSG1'}, ('MSG1',), {'k': ['MSG1', 'MSG2']}))
    again = H.flip('again')

    def wrap(err):
        if how == 'errors':
            return err.errors
        if how == 'tuple':
            return tuple(err.errors)
        if how == 'raw':
            return err.raw()
        if how == 'text':
            return str(err)
        if how == 'error':
            return err
        if how == 'by key':
            return {'z': err.errors}
        return err.errors[0]

    def f(what, context):
        m = msg
        for i in range(2 if again else 1):
            try:
                Z({'z': 1}) if not i else Y({'z': 1})
            except oblate.ValidationError as e:
                m = wrap(e)
        raise FieldError(m, 'st')

    def inner(what, context):
        raise FieldError(msg)

    class Z(oblate.Schema):
        z = Fails(inner)

    def middle(what, context):
        try:
            Z({'z': 1})
        except oblate.ValidationError as e:
            raise FieldError(wrap(e))

    class Y(oblate.Schema):
        z = Fails(middle)

    class S(oblate.Schema):
        a = Fails(f)
    ok, r = H.attempt(S, {'a': 1})
    H.check(not ok and isinstance(r, oblate.ValidationError), 'a validation error')
    text = str(r)
    H.check('a' in r.raw(), 'reported under the own key')
    H.check(all(e.key == 'a' and e.field is S.a and e.schema is r.schema for e in r.errors), 'attributed to the own field')
    for m in ('MSG1', 'MSG2') if 'MSG2' in repr(msg) and not how == 'first' else ('MSG1',):
        H.check(m in repr(r.raw()['a']), 'every message is in the raw form')
        H.check(m in text, 'and in the text')


def made(H):
    """Validation errors made by user code of any errors, in any order."""
    class In(oblate.Schema):
        x = fields.Any()
        y = fields.Any()

    class S(oblate.Schema):
        a = fields.Any(load_key='ka')
        b = fields.Any()
        n = fields.Object(In)

        @oblate.validate.field(b)
        def check_b(self, value, context):
            raise FieldError(['B1', {'deep': ['B2']}])
    ok, r = H.attempt(S, {'b': 1, 'n': {'x': 1, 'zz': 2}, 'u': 3})
    pool = {}
    for e in r.errors:
        pool.setdefault(e.key, []).append(e)
    H.check(sorted(pool) == ['b', 'ka', 'n', 'u'] and len(pool['b']) == 2, 'the errors to choose from')
    errors = []
    names = ('ka', 'b', 'b1', 'u', 'n')
    for i in range(H.bound(4, 5)):
        k = H.choice('error%d' % i, ('end',) + names)
        if k == 'end':
            break
        errors.append(pool['b'][1] if k == 'b1' else pool[k][0])
    cls = H.choice('class', (oblate.ValidationError, Own))
    got = []

    def create(what, context):
        got.append(H.attempt(cls, errors))

    class Around(oblate.Schema):
        z = Fails(create)
    Around({'z': 1})
    ok, e = got[0]
    H.check(ok, 'it can be created')
    want = {}
    for x in errors:
        want.setdefault(x.key, []).append(raw2(x.message))
    out = e.raw()
    H.check(sorted(out) == sorted(want), 'grouped by key')
    H.check(all(out[k] == want[k] for k in want), 'nothing lost, in order')
    H.check(len(e.errors) == len(errors) and all(x is y for x, y in zip(e.errors, errors)), 'the very errors')
    text = str(e)
    H.check(all(k in text for k in want), 'the text names every key')
    for x in errors:
        H.check(all(t in text for t in {'ka': [pool['ka'][0].message], 'b': ['B1'] if x is pool['b'][0] else ['deep', 'B2'], 'u': [pool['u'][0].message],
                                        'n': ['zz', 'y']}[x.key]), 'and every message')
    H.check(e.raw() == out and str(e) == text, 'the same every time')
    before = repr(out)
    for k in list(out):
        if isinstance(out[k][0], dict):
            out[k][0].clear()
        out[k].append('edited')
    out['mine'] = 1
    H.check(repr(e.raw()) == before and str(e) == text, 'whatever was done with an earlier raw form')
    H.cover('made %d' % len(errors))


class Own(oblate.ValidationError):
    pass


def raw2(m):
    if isinstance(m, FieldError):
        return raw2(m.message)
    if isinstance(m, dict):
        return {k: raw2(v) for k, v in m.items()}
    if isinstance(m, list):
        return [raw2(x) for x in m]
    return str(m)


def textless(H):
    """Keys and messages that have no text do not stand in the way of the report, nor of the other errors."""
    what = H.choice('what', tuple(range(len(UNPRINTABLE))))
    x = UNPRINTABLE[what]
    hashable = not isinstance(x, list)
    how = H.choice('how', ('field', 'list', 'inner list', 'value', 'dict', 'key') if hashable else ('field', 'list', 'inner list', 'value', 'dict'))
    where = H.choice('where', ('val', 'raw', 'load', 'dump', 'format'))

    def fail():
        if how in ('field', 'key'):
            raise FieldError(x)
        if how == 'list':
            raise FieldError(['M1', x, 'M2'])
        if how == 'inner list':
            raise FieldError([['M1', x]])
        if how == 'dict':
            raise FieldError({'k': x, 'l': 'M1'})
        raise ValueError(x)

    class P(Pass):
        def value_load(self, value, context):
            if where == 'load':
                fail()
            return value

        def value_dump(self, value, context):
            if where == 'dump':
                fail()
            return value

        def format_error(self, code, context):
            if where == 'format':
                try:
                    fail()
                except FieldError as e:
                    return e
                except ValueError:
                    return None
            return 'code:%s' % (code,)

    class S(oblate.Schema):
        a = P(required=False)
        i = fields.Integer(required=False)
    if where in ('val', 'raw'):
        S.a.add_validator(lambda s, v, c: fail(), raw=where == 'raw')
    op = 'dump' if where == 'dump' else H.choice('op', ('construct', 'update'))
    data = {'a': None if where == 'format' else 1, 'i': 'BAD'}
    if how == 'key':
        data = {'i': 'BAD', x: 1} if H.flip('after') else {x: 1, 'i': 'BAD'}
    if where == 'dump':
        if how == 'key':
            return
        s = S({'a': 1})
        ok, r = H.attempt(s.dump)
    elif op == 'update':
        ok, r = H.attempt(S({}).update, data)
    else:
        ok, r = H.attempt(S, data)
    H.check(not ok and isinstance(r, oblate.ValidationError), 'a ValidationError is always made')
    first = x if how == 'key' else 'a'
    count = 3 if how == 'list' else 1
    H.check(len([e for e in r.errors if e.key is first or how != 'key' and e.key == 'a']) == count, 'every failure is in it')
    H.check(where == 'dump' or len([e for e in r.errors if e.key == 'i']) == 1, 'the other errors too')
    raw, text = r.raw(), str(r)
    H.check(isinstance(text, str) and len(raw) == (1 if where == 'dump' else 2) and len(raw[first]) == count, 'the raw form and the text')
    H.check(how == 'key' or 'In field a:' in text, 'naming the key')
    if how in ('list', 'inner list', 'dict') and what < 2:
        H.check(raw['a'][0] == 'M1' if how == 'list' else 'M1' in (raw['a'][0] if how == 'inner list' else raw['a'][0].values()), 'the other messages are kept')
    if what == 1 and how == 'field':
        H.check(raw['a'] == ['yes'] and 'yes' in text, 'a text is enough')
    H.cover('reported')


textless.covers = ('reported',)
made.covers = ('made 0', 'made 4')
structure.covers = ('reported',)
grouping.covers = ('valid', 'invalid')
nested.covers = ('valid', 'nested')
SCENARIOS = dict(structure=structure, grouping=grouping, keys=keys, standard=standard, nested=nested, wrapped=wrapped, made=made, textless=textless)

SCENARIOS.update(
    deviations=model.run(('text',), model.FIELD + model.DATA + model.USER + ('format', 'typ', 'obj', 'which'), (('none', 'update', 'set'),), (2, 3), ('ok', 'value', 'fieldempty', 'list', 'dict')),
    rich=model.run(('text', 'errors'), model.FIELD + model.DATA + model.USER, (('none', 'update', 'set'),), (1, 2), ('ok', 'value', 'list'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}, free=('load', 'val')),
)
