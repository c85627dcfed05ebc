"""C11: every error names the right key, field, schema and context."""
import collections.abc
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('schemas of 2-3 fields, every kind of failure in construction, update, assignment and dump; one nested or re-entrant operation '
          '(successful or failing construction, update, assignment, dump of another schema or of another instance) from the deserializer, '
          'a validator, the error formatter, a default, the serializer, the preprocessing hook or the iteration of the data; nesting up to 3 levels')
ASSUMPTIONS = ['errors of nested schemas for which no value of the nested schema is being processed may carry no context or the context of '
               'the enclosing value']
OUT = ('ok', 'value', 'field', 'list')


class Other:
    """Operations on other schemas, to be run in the middle of the operation under test."""
    OPS = ('construct', 'bad construct', 'update', 'bad update', 'set', 'bad set', 'dump', 'bad dump', 'frozen', 'nested')

    def __init__(self, H):
        class O(oblate.Schema):
            a = fields.Integer(load_key='ka')
            b = fields.Integer(required=False)
            z = fields.Any(frozen=True, required=False)

        class D(Pass):
            def value_dump(self, value, context):
                raise ValueError('other')

        class B(oblate.Schema):
            a = D()

        class N(oblate.Schema):
            a = fields.Object(O)
        self.O, self.B, self.N = O, B, N
        self.o, self.b = O({'ka': 1}), B({'a': 1})
        self.ran = 0

    def run(self, op):
        self.ran += 1
        try:
            if op == 'construct':
                self.O({'ka': 2})
            elif op == 'bad construct':
                self.O({'ka': 'x', 'a': 1})
            elif op == 'update':
                self.o.update({'ka': 3, 'b': 1})
            elif op == 'bad update':
                self.o.update({'ka': 'x', 'zz': 1})
            elif op == 'set':
                self.o.a = 4
            elif op == 'bad set':
                self.o.a = None
            elif op == 'dump':
                self.o.dump()
            elif op == 'bad dump':
                self.b.dump()
            elif op == 'frozen':
                self.o.update({'z': 1})
            elif op == 'nested':
                self.N({'a': {'ka': 'x'}})
        except (oblate.ValidationError, oblate.FrozenError):
            pass


def attributed(H, w, cls, descr, es, r, schema, op):
    """Every error of the ValidationError is attributed correctly."""
    H.check(r.schema is schema, 'the ValidationError carries the schema')
    values = dict((f.name, v) for k, v in es for f in descr if f.key == k)
    for e in r.errors:
        H.check(e.schema is schema, 'the error carries the schema instance being processed')
        f = find(descr, e.key)
        if f is None:
            H.check(any(e.key == k for k, _ in es), 'the key of an unknown entry')
            H.check(e.field is None, 'no field for unknown keys')
            H.check(e.context is None, 'no context for unknown keys')
            H.cover('unknown')
            continue
        H.check(e.field is getattr(cls, f.name), 'the registered field')
        m = str(e.message)
        if m.endswith('field_required'):
            H.check(e.context is None, 'no context for missing fields')
            H.cover('missing')
            continue
        if m.startswith('load:') or m.startswith('dump:'):
            H.check(m[5:].split('.')[0] == f.name, 'the error is that of the field')
        H.check(e.context is not None, 'the context of the value')
        H.check(e.context.field is getattr(cls, f.name) and e.context.schema is schema, 'context of that field and schema')
        H.check(H.same(e.context.value, values[f.name]), 'context of that very value')
        logged = [x[3] for x in w.log if x[0] == op and x[1] == f.name]
        if logged:
            H.check(e.context is logged[-1], 'the very context user code was given')
        for x in w.log:
            if x[0] == 'val' and m.startswith('val:' + x[1]):
                H.check(e.context is x[3], 'the very context the validator was given')
        H.cover('value')


POINTS = ('load.a', 'val.va', 'val.ra', 'format.b', 'load.b', 'default', 'data', 'pre')


class Hooked(collections.abc.Mapping):
    """A mapping whose iteration runs something."""
    def __init__(self, pairs, hook):
        self.d, self.hook = dict(pairs), hook

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        for k in self.d:
            self.hook()
            yield k

    def __len__(self):
        return len(self.d)


def setup(H, w, points, validators=True):
    """Schema, entries and the operation to run in the middle of the operation under test."""
    other = Other(H)
    point = H.choice('point', points)
    inner = H.choice('inner', Other.OPS)
    if '.' in point:
        w.hooks[tuple(point.split('.'))] = lambda *a: other.run(inner)

    def pre(self, data):
        if point == 'pre':
            other.run(inner)
        return data

    def dfl(ctx, field):
        if point == 'default':
            other.run(inner)
        return 1
    descr = [F('a', 'ka', none=False, required=False, raws=('ra',), vals=('va',), vouts=FAIL),
             F('b', none=False, required=H.flip('b.req') if point in ('load.a', 'val.va', 'default') else True, outs=FAIL),
             F('c', required=False, default=dfl)]
    cls = make_schema(w, descr, preprocess_data=pre)
    return other, point, inner, descr, cls


def construction(H):
    w = World(H, OUT)
    other, point, inner, descr, cls = setup(H, w, POINTS)
    es = [('ka', H.value('va', Spec(('int', 'none'))))]
    b = H.choice('b', ('none', 'first', 'last', 'null'))
    if b == 'null':
        es.append(('b', None))
    elif b != 'none':
        es.insert(0 if b == 'first' else 1, ('b', 5))
    if H.flip('unknown'):
        es.insert(H.choice('at', (0, len(es))), ('zz', 1))
    data = Hooked(es, lambda: other.run(inner)) if point == 'data' else dict(es)
    w.begin('op')
    ok, r = w.attempt(cls, data)
    descr[2].default = 1
    p = predict(w, descr, es, 'op', False)
    n = len([1 for e in p.errors])
    if p.errors:
        H.cover('invalid')
        H.check(not ok and isinstance(r, oblate.ValidationError), 'a validation error')
        H.check(type(r.schema) is cls, 'of the class constructed')
        attributed(H, w, cls, descr, es, r, r.schema, 'load')
    else:
        H.check(ok, 'valid')
    H.out('ok', ok)


def updates(H):
    """update() and assignment."""
    w = World(H, ('ok',))
    other, point, inner, descr, cls = setup(H, w, ('load.a', 'val.va', 'val.ra', 'format.b', 'data'))
    for f in descr:
        f.required = False
    cls.a.clear_validators()
    cls.b.required = False
    hooks, w.hooks = w.hooks, {}
    s = construct_quietly(H, w, cls, descr, 'ab' if H.flip('set') else '')
    w.hooks = hooks
    cls.a.add_validator(w.validator('va', ('ok', 'value', 'list')))
    cls.a.add_validator(w.validator('ra', FAIL), raw=True)
    cls.a.outs, cls.b.outs = OUT, FAIL
    descr[0].vouts = ('ok', 'value', 'list')
    how = H.choice('how', ('update', 'set a', 'set b')) if point != 'data' else 'update'
    va = H.value('va', Spec(('int', 'none')))
    if how == 'update':
        es = [('ka', va)]
        b = H.choice('b', ('none', 'first', 'null'))
        if b == 'null':
            es.append(('b', None))
        elif b != 'none':
            es.insert(0, ('b', 5))
        if H.flip('unknown'):
            es.insert(H.choice('at', (0, len(es))), ('zz', 1))
        data = Hooked(es, lambda: other.run(inner)) if point == 'data' else dict(es)
        w.begin('op')
        ok, r = w.attempt(s.update, data)
    else:
        es = [('ka' if how == 'set a' else 'b', va)]
        w.begin('op')
        ok, r = w.attempt(setattr, s, how[-1], va)
    if not ok:
        H.cover('invalid')
        H.check(isinstance(r, oblate.ValidationError), 'a validation error')
        attributed(H, w, cls, descr, es, r, s, 'load')
    H.out('ok', ok)


def dumping(H):
    w = World(H, ('ok',))
    other = Other(H)
    point = H.choice('point', ('a', 'b'))
    inner = H.choice('inner', Other.OPS)
    descr = [F('a', 'ka', required=False, none=True, dump_key='x'), F('b', 'a', required=False, none=True)]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('ab', 'a', 'b')))
    w.hooks['dump', point] = lambda *a: other.run(inner)
    cls.a.douts = ('ok', 'value', 'assert', 'field', 'list', 'empty')
    cls.b.douts = OUT
    st = state_of(s, 'ab')
    w.begin('op')
    ok, r = w.attempt(s.dump)
    if not ok:
        H.cover('invalid')
        attributed(H, w, cls, descr, [(f.key, st[f.name]) for f in descr if st[f.name] is not UNSET], r, s, 'dump')


class Probe(fields.Field):
    """Fails as chosen and remembers schema and context."""
    def __init__(self, H, ident, log, **kw):
        self.H, self.ident, self.log = H, ident, log
        super().__init__(**kw)

    def fail(self, value, context):
        o = self.H.choice('out.' + self.ident, ('ok', 'value', 'field'))
        self.log.append((self.ident, value, context))
        if o == 'value':
            raise ValueError(self.ident)
        if o == 'field':
            raise oblate.FieldError(self.ident)
        return value

    def value_load(self, value, context):
        return self.fail(value, context) if 'load' in self.extras else value

    def value_dump(self, value, context):
        return self.fail(value, context) if 'dump' in self.extras else value


def nested(H):
    """Three levels: each error of each level carries the schema instance and context of its level."""
    log = []
    ex = {H.choice('mode', ('load', 'dump')): 1}
    loading = 'load' in ex

    class Leaf(oblate.Schema):
        x = Probe(H, 'x', log, load_key='kx', extras=ex, validators=[])
        y = Probe(H, 'y', log, required=loading, extras=ex)

        @oblate.validate.field(x)
        def check_x(self, value, context):
            log.append(('vx', value, context, self))
            if loading and H.flip('vx'):
                raise ValueError('vx')

    class Mid(oblate.Schema):
        leaf = fields.Object(Leaf, load_key='kl')
        m = Probe(H, 'm', log, required=False, extras=ex)

    class Top(oblate.Schema):
        first = Probe(H, 'first', log, required=False, extras=ex)
        mid = fields.Object(Mid)
        last = Probe(H, 'last', log, required=False, extras=ex)
    leaf = {'kx': 1}
    if not loading or H.flip('y'):
        leaf['y'] = 2
    extra = loading and H.flip('unknown')
    if extra:
        leaf['x'] = 3
    mid = {'kl': leaf, 'm': 4} if H.flip('m first') else {'m': 4, 'kl': leaf}
    if H.flip('no m'):
        del mid['m']
    data = {'first': 5, 'mid': mid, 'last': 6}
    if loading:
        ok, r = H.attempt(Top, data)
    else:
        ok, top = H.attempt(Top, data)
        H.check(ok, 'valid data')
        ok, r = H.attempt(top.dump)
    if ok:
        H.cover('valid')
        return
    H.cover('invalid')
    check_level(H, log, r.errors, Top, r.schema, ('first', 'mid', 'last'))
    for e in r.errors:
        if e.key == 'mid':
            inner = e.message
            H.check(isinstance(inner, dict), 'nested errors')
            es = [x for v in inner.values() for x in v]
            sch = [x for x in es][0].schema
            check_level(H, log, es, Mid, sch, ('leaf', 'm'))
            if not loading:
                H.check(sch is top.mid, 'the nested schema itself')
            for e2 in es:
                if e2.key == 'kl':
                    es3 = [x for v in e2.message.values() for x in v]
                    check_level(H, log, es3, Leaf, es3[0].schema, ('x', 'y'))
                    if not loading:
                        H.check(es3[0].schema is top.mid.leaf, 'the nested schema itself')


def check_level(H, log, errors, cls, schema, names):
    H.check(type(schema) is cls, 'schema of its level')
    for e in errors:
        H.check(e.schema is schema, 'one schema per level')
    
        f = None
        for n in names:
            if getattr(cls, n).load_key == e.key:
                f = getattr(cls, n)
        H.check(e.field is f, 'registered field or none')
        if f is None or e.message not in ('x', 'y', 'm', 'first', 'last', 'vx'):
            H.check(isinstance(e.message, dict) or e.context is None or e.context.schema is not schema, 'no value was processed at this level')
            if isinstance(e.message, dict):
                H.check(e.context is not None and e.context.schema is schema and e.context.field is f, 'context of the nested value')
            continue
        mine = [x for x in log if x[0] == e.message and x[2].schema is schema]
        H.check(len(mine) == 1 and e.context is mine[0][2], 'the very context user code was given')
        H.check(e.context.schema is schema and e.context.field is f, 'context of that field and schema')


def borrowed(H):
    """User code passes on an error that another schema's operation made: the ValidationError is still that of the schema processed."""
    class Other(oblate.Schema):
        q = fields.Integer()
        p = fields.Integer(required=False)
    how = H.choice('how', ('construct', 'update', 'set'))
    point = H.choice('point', ('raw', 'validator', 'load'))
    kept = []

    def borrow(value):
        if value != 0:
            return
        if H.flip('kept'):
            raise kept[0]
        try:
            Other({'q': 'x', 'p': 'y', 'zz': 1})
        except oblate.ValidationError as err:
            raise err.errors[H.choice('which', (0, 2))]
    try:
        Other({})
    except oblate.ValidationError as err:
        kept.append(err.errors[0])

    class L(fields.Field):
        def value_load(self, value, context):
            if point == 'load':
                borrow(value)
            return value

        def value_dump(self, value, context):
            return value

    class S(oblate.Schema):
        a = L(load_key='ka', required=False)
        b = fields.Integer(required=False)

        @oblate.validate.field(a, raw=point == 'raw')
        def check_a(self, value, context):
            if point != 'load':
                borrow(value)
    v = H.value('v', Spec(('int',)))
    s = S({'ka': 5})
    extra = {} if how == 'set' else {'b': 'bad'} if H.flip('b') else {}
    if how == 'construct':
        ok, r = H.attempt(S, dict(extra, ka=v))
    elif how == 'update':
        ok, r = H.attempt(s.update, dict(extra, ka=v))
    else:
        ok, r = H.attempt(setattr, s, 'a', v)
    if v == 0 or extra:
        H.check(not ok and isinstance(r, oblate.ValidationError), 'a validation error')
        H.check(type(r.schema) is S, 'of the class processed')
        if how != 'construct':
            H.check(r.schema is s, 'of the very schema processed')
        H.check(len(r.errors) == (v == 0) + len(extra), 'every error is there')
        if extra:
            e = [e for e in r.errors if e.key == 'b'][0]
            H.check(e.schema is r.schema and e.field is S.b and e.context.field is S.b, 'the other error is rightly attributed')
            H.check(e.context.value == 'bad', 'to its value')
        H.cover('invalid')
    else:
        H.check(ok, 'valid')
        H.cover('valid')


borrowed.covers = ('valid', 'invalid')
construction.covers = ('invalid', 'unknown', 'missing', 'value')
updates.covers = ('invalid', 'unknown', 'value')
dumping.covers = ('invalid', 'value')
nested.covers = ('valid', 'invalid')
SCENARIOS = dict(construction=construction, updates=updates, dumping=dumping, nested=nested, borrowed=borrowed)

SCENARIOS.update(
    blank=model.run(('attribution', 'errors'), model.FIELD + model.DATA + model.USER + ('which',), (('update', 'set'),), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False, 'vals.a': 1}),
    deviations=model.run(('attribution',), model.FIELD + model.DATA + model.USER + model.NESTED + ('format', 'which'), (('none', 'update', 'set'),), (2, 3), model.OUTCOMES),
    deviations_dump=model.run(('attribution',), model.FIELD + ('has', 'value', 'dump', 'sametext', 'select', 'container', 'dumpkeys') + ('format', 'typ', 'obj'), ('dump',), (2, 3), model.OUTCOMES),
    rich=model.run(('attribution',), model.FIELD + model.DATA + model.USER, ('update',), (2, 3), ('ok', 'value'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}, free=('load', 'val'), plain_init=True),
    levels=model.run(('attribution', 'errors'), model.FIELD + model.DATA + ('load', 'sametext') + model.NESTED + ('format', 'which'), (('none', 'update', 'set'),), (1, 2), model.OUTCOMES, base={'typ': 'object'}, free=('load.i', 'obj', 'which')),
    inner=model.run(('attribution', 'errors'), ('load', 'val', 'sametext', 'format', 'keys', 'inherit', 'which') + model.NESTED, (('none', 'update', 'set'),), (1, 2), ('ok', 'value', 'empty', 'list'), base={'typ': 'object', 'inner_raws': 1, 'inner_vals': 1, 'inner_none': True}, free=('load.i', 'val', 'obj.b@op1')),
    inherited=model.run(('attribution', 'errors'), model.FIELD + model.DATA + model.USER + ('which', 'old', 'cfg_style'), (('none', 'update', 'set'),), (1, 2), ('ok', 'value'), base={'vals.a': 1, 'vals.b': 1, 'raws.b': 1, 'keys': 'other', 'inherit': 'parent'}, free=('inherit', 'load', 'val')),
)
