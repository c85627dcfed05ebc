"""C30: contexts tell user code the truth about the operation in progress."""
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('schemas of up to 3 fields with raw and ordinary validators; construction followed by an update, an assignment and dumps, each '
          'succeeding or failing; every selection of fields; re-entrant operations on the same schema from user code; nested schemas')
ASSUMPTIONS = ['contexts are asked while the user code they were given to runs']


class Watch:
    """Records what each piece of user code sees in its context."""

    def __init__(self, H, w, initialized):
        self.H, self.w = H, w
        self.initialized = initialized      # the expected answer of is_update()
        self.states = []                    # (context, state) seen so far, of all operations
        self.expected = {}                  # field name -> (field, raw value)
        self.schema = None
        self.ran = 0

    def expect(self, cls, values):
        """A new operation on these values."""
        self.op = {}
        self.values = values
        self.cls = cls

    def __call__(self, ident, name, context, schema=None):
        H = self.H
        f = getattr(self.cls, name)
        self.ran += 1
        H.check(isinstance(context, oblate.LoadContext), 'a load context')
        H.check(context.field is f, 'the field of the value')
        H.check(H.same(context.value, self.values[name]), 'the raw value')
        if schema is not None:
            H.check(context.schema is schema, 'the schema the validator is called with')
        if self.schema is None:
            self.schema = context.schema
        H.check(context.schema is self.schema and type(context.schema) is self.cls, 'the schema')
        H.check(context.is_update() == self.initialized, 'update exactly after construction')
        H.check(context.schema.context.is_initialized() == self.initialized, 'initialized exactly after construction')
        st = context.state
        H.check(isinstance(st, dict), 'a state dictionary')
        if name not in self.op:
            H.check(st == {}, 'fresh for this value')
            H.check(all(st is not x for x in self.states), 'not shared with another value or operation')
            self.op[name] = st
            self.states.append(st)
        else:
            H.check(st is self.op[name], 'shared between deserializer and validators')
            H.check(st, 'with what they put there')
            H.cover('shared')
        st[ident] = 1


def watched(H, w, watch, descr):
    for f in descr:
        w.hooks['load', f.name] = lambda value, context, n=f.name: watch('load', n, context)
        for v in f.raws + f.vals:
            w.hooks['val', v] = lambda schema, value, context, n=f.name, v=v: watch(v, n, context, schema)


def loads(H):
    w = World(H, ('ok', 'value'), ('ok', 'value'))
    descr = [F('a', 'ka', raws=('ra',) if H.flip('raw') else (), vals=('va',)), F('b', 'a', required=False, none=True, raws=('rb',)),
             F('c', required=False, outs=('ok',))]
    cls = make_schema(w, descr)
    watch = Watch(H, w, False)
    watched(H, w, watch, descr)
    vals = {'a': H.value('a1', NONNULL), 'b': H.value('b1', INPUT)}
    watch.expect(cls, vals)
    w.begin('one')
    if H.flip('order'):
        data = {'ka': vals['a'], 'a': vals['b'], 'zz': 1}
    else:
        data = {'a': vals['b'], 'ka': vals['a']}
    ok, r = w.attempt(cls, data, ignore_extra=True)
    H.check(watch.ran >= 2, 'user code ran')
    H.check(watch.schema.context.is_initialized() == ok, 'initialized exactly after a successful construction')
    if not ok:
        H.cover('failed')
        return
    H.check(r is watch.schema, 'the schema constructed')
    watch.initialized = True
    w.begin('two')
    how = H.choice('how', ('update', 'set', 'both'))
    if how != 'set':
        vals = {'a': H.value('a2', NONNULL), 'b': 5}
        watch.expect(cls, vals)
        ok, e = w.attempt(r.update, {'ka': vals['a'], 'a': 5})
        H.cover('updated' if ok else 'update failed')
    if how != 'update':
        vals = {'a': 7}
        watch.expect(cls, vals)
        w.begin('three')
        descr[0].outs = cls.a.outs = ('ok',)
        ok, e = w.attempt(setattr, r, 'a', 7)
        H.cover('set' if ok else 'set failed')
    H.check(r.context.is_initialized(), 'stays initialized')


def dumps(H):
    """Dump contexts: field, schema, stored value, selection, fresh state."""
    w = World(H, ('ok',), douts=('ok', 'value'))
    descr = [F('a', 'ka', required=False, none=True, dump_key='da'), F('b', 'x', required=False, none=True), F('c', required=False, douts=('ok',))]
    cls = make_schema(w, descr)
    present = H.choice('present', ('abc', 'ac', 'b'))
    s = construct_quietly(H, w, cls, descr, present)
    st = state_of(s, 'abc')
    seen = []
    sel = [n for n in 'abc' if H.flip('sel.' + n)] + (['ka', 'zz'] if H.flip('other names') else [])
    mode = H.choice('mode', ('all', 'include', 'exclude'))
    kind = H.choice('kind', (list, tuple, set))
    kw = {} if mode == 'all' else {mode: kind(sel)}
    exp = {n for n in 'abc' if mode == 'all' or (n in sel) == (mode == 'include')}
    states = []

    def hook(n):
        def f(value, context):
            seen.append(n)
            H.check(isinstance(context, oblate.DumpContext), 'a dump context')
            H.check(context.field is getattr(cls, n) and context.schema is s, 'field and schema')
            H.check(H.same(context.value, st[n]) and H.same(value, st[n]), 'the stored value')
            H.check(set(context.included_fields) == exp, 'exactly the selected fields')
            H.check(context.state == {} and all(context.state is not x for x in states), 'fresh state')
            context.state[n] = 1
            states.append(context.state)
            H.check(s.context.is_initialized(), 'initialized')
            if n == inner:
                # a dump of the same schema in between, with another selection
                w.hooks, hooks = {}, w.hooks
                w.attempt(s.dump, include=['c'])
                w.hooks = hooks
        return f
    inner = H.choice('inner', ('none', 'a', 'b')) if mode != 'exclude' else 'none'
    for n in 'abc':
        w.hooks['dump', n] = hook(n)
    for op in ('one', 'two'):
        w.begin('op')
        del seen[:]
        ok, r = w.attempt(s.dump, **kw)
        H.check(sorted(seen) == sorted(n for n in exp if st[n] is not UNSET), 'every selected set field, once')
    H.cover('dumped' if ok else 'failed')


class Conf(oblate.SchemaConfig):
    ignore_extra = True


def schema_context(H):
    """State, configuration and progress of the schema context at every stage."""
    stages = []
    given = H.flip('state given')
    state = H.value('state', ANY)
    conf = H.choice('config', ('none', 'own', 'inherited'))
    fail = H.choice('fail', ('no', 'pre', 'load', 'val', 'post', 'missing'))

    def at(stage, schema, exp):
        stages.append(stage)
        c = schema.context
        H.check(c.schema is schema, 'the context refers to its schema')
        H.check(c.state is None if not given else H.same(c.state, state), 'the state given')
        H.check(c.config is (oblate.SchemaConfig if conf == 'none' else Conf), 'the configuration')
        H.check(c.is_initialized() == exp, 'initialized exactly from the end of construction on')
        if ctx:
            H.check(c is ctx[0], 'always the same context')
        else:
            ctx.append(c)
        if fail == stage:
            raise ValueError(stage)
    ctx = []

    class Fd(Pass):
        def value_load(self, value, context):
            at('load', context.schema, bool(done))
            return value

        def value_dump(self, value, context):
            at('dump', context.schema, True)
            return value

    def dfl(context, field):
        H.check(field is S.d, 'the field of the default')
        at('default', context.schema, False)
        H.check(context is context.schema.context, 'defaults get the schema context')
        return 1
    done = []
    ns = {'Config': Conf} if conf != 'none' else {}
    meta = type(oblate.Schema)
    base = meta('Base', (oblate.Schema,), dict(ns, __module__=__name__)) if conf == 'inherited' else oblate.Schema

    def check_a(self, value, context):
        at('val', self, bool(done))

    def pre(self, data):
        at('pre', self, False)
        return data

    def post(self):
        at('post', self, True)
    fa = Fd(load_key='ka')
    S = meta('S', (base,), dict({} if conf != 'own' else ns, a=fa, b=Fd(required=False), d=Fd(default=dfl), check_a=oblate.validate.field(fa)(check_a),
                                preprocess_data=pre, __schema_post_init__=post, __module__=__name__))
    data = {'ka': 1} if fail != 'missing' else {'b': 1}
    ok, r = H.attempt(S, data, state=state) if given else H.attempt(S, data)
    H.check(ok == (fail == 'no'), 'succeeds unless something fails')
    if not ok:
        H.check(ctx[0].is_initialized() == (fail == 'post'), 'a failed construction never counts as initialized')
        H.cover('failed')
        return
    H.check(stages[0] == 'pre' and stages[-1] == 'post' and sorted(stages[1:-1]) == ['default', 'load', 'val'], 'every stage ran')
    done.append(1)
    for op in ('update', 'set', 'bad', 'dump'):
        if op == 'update':
            r.update({'ka': 2})
        elif op == 'set':
            r.a = 3
        elif op == 'dump':
            r.dump()
        else:
            H.attempt(r.update, {'ka': None}, ignore_extra=False)
        at('later', r, True)
    r.context.state = 'changed'
    H.check(r.context.state == 'changed', 'the state can be replaced')
    H.check(S({'ka': 1}).context.state is None if not given and not done.clear() and not ctx.clear() else True, 'but only of that schema')
    H.cover('done')


def reentrant(H):
    """User code of a schema under construction uses the schema: not an update yet; nested operations see their own contexts."""
    seen = []
    where = H.choice('where', ('load', 'val', 'post', 'after'))
    what = H.choice('what', ('set', 'update', 'dump', 'other', 'copy'))

    class Fd(Pass):
        def value_load(self, value, context):
            seen.append(('load', self.name, value, context, context.is_update()))
            if self.name == 'a' and value == 'outer' and where == 'load':
                act(context.schema)
                check_outer(context)
            return value

        def value_dump(self, value, context):
            seen.append(('dump', self.name, value, context, None))
            return value

    class S(oblate.Schema):
        b = Fd(required=False)
        a = Fd(load_key='ka')

        @oblate.validate.field(a)
        def check(self, value, context):
            seen.append(('val', 'a', value, context, context.is_update()))
            if value == 'outer' and where == 'val':
                act(self)
                check_outer(context)

        def __schema_post_init__(self):
            if where == 'post' and not stop:
                stop.append(1)
                act(self)

    class O(oblate.Schema):
        x = Fd()
    stop = []

    def check_outer(context):
        H.check(context.value == 'outer' and context.field is S.a and context.is_update() is False, 'the own context is unchanged')
        H.cover('outer')

    def act(schema):
        del seen[:]
        exp = where in ('post', 'after')
        if what == 'set':
            schema.b = 'inner'
        elif what == 'update':
            schema.update({'ka': 'inner', 'b': 'in b'})
        elif what == 'dump':
            schema.dump(include=['b'])
        elif what == 'copy':
            stop.append(1)
            c = schema.copy()
            c.b = 'inner'
            schema = c
        else:
            o = O({'x': 1})
            H.check([x[4] for x in seen] == [False], 'the other schema is under construction')
            o.x = 2
            H.check([x[4] for x in seen] == [False, True], 'the other schema is updated')
            H.check(all(x[3].schema is o and x[3].field is O.x for x in seen), 'contexts of the other schema')
            return
        for kind, name, value, ctx, upd in seen:
            H.check(ctx.schema is schema and ctx.field is getattr(S, name), 'contexts of the inner operation')
            if kind == 'dump':
                H.check(set(ctx.included_fields) == {'b'}, 'selection of the inner dump')
                continue
            H.check(value in ('inner', 'in b') and ctx.value == value, 'values of the inner operation')
            if what != 'copy':
                H.check(upd == exp, 'update exactly after construction')
        H.cover('acted')
    s = S({'b': 'b0', 'ka': 'outer'})
    if where == 'after':
        act(s)
    H.check(s.context.is_initialized(), 'initialized')


def nested(H):
    """Contexts of nested schemas are those of their level."""
    log = []

    class Fd(Pass):
        def value_load(self, value, context):
            log.append((self, value, context, context.is_update(), context.schema.context.state))
            context.state['x'] = 1
            return value

        def value_dump(self, value, context):
            log.append((self, value, context, set(context.included_fields), None))
            return value

    class In(oblate.Schema):
        x = Fd(load_key='kx')
        y = Fd(required=False)

    class S(oblate.Schema):
        n = fields.Object(In, init_kwargs={'state': 'inner'})
        t = Fd()
    v = H.value('v', NONNULL)
    data = {'n': {'kx': v}, 't': 1}
    if H.flip('order'):
        data = {'t': 1, 'n': {'kx': v, 'y': 2}}
    s = S(data, state='outer')

    def judge(update, vals):
        for f, value, ctx, upd, st in log:
            inner = f is not S.t
            H.check(ctx.field is f and ctx.schema is (s.n if inner else s), 'field and schema of its level')
            H.check(H.same(ctx.value, value), 'value')
            H.check(upd == (update and not inner), 'nested schemas are constructed, not updated')
            H.check(st == ('inner' if inner else 'outer'), 'state of its level')
            H.check(ctx.state == {'x': 1}, 'state of its value')
    judge(False, None)
    H.check(len(log) == 2 + ('y' in data['n']), 'all fields')
    del log[:]
    s.update({'n': {'kx': 3}, 't': 4})
    judge(True, None)
    del log[:]
    s.dump(include=['n'])
    for f, value, ctx, sel, _ in log:
        H.check(ctx.schema is s.n and sel == {'x', 'y'}, 'the selection says nothing about nested schemas')
    H.check(len(log) == 1, 'the set nested field')
    H.cover('nested')


loads.covers = ('shared', 'failed', 'updated', 'update failed', 'set', 'set failed')
dumps.covers = ('dumped', 'failed')
schema_context.covers = ('failed', 'done')
reentrant.covers = ('acted', 'outer')
nested.covers = ('nested',)
SCENARIOS = dict(loads=loads, dumps=dumps, schema_context=schema_context, reentrant=reentrant, nested=nested)

SCENARIOS.update(
    blank=model.run(('context',), model.FIELD + model.DATA + model.USER + ('state', 'which'), (('update', 'set'), ('none', 'update', 'set')), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False, 'raws.a': 1, 'vals.a': 1, 'vals.b': 1}),
    deviations=model.run(('context',), model.FIELD + model.DATA + model.USER + ('state', 'which', 'typ', 'obj'), (('none', 'update', 'set'),), (2, 3), ('ok', 'value', 'foreign'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}),
    deviations_dump=model.run(('context',), model.FIELD + ('has', 'value', 'dump', 'sametext', 'select', 'container', 'dumpkeys') + ('typ', 'obj'), (('none', 'update'), 'dump'), (2, 3), ('ok', 'value'), free=('select@op2',)),
)
