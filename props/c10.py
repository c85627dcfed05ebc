"""C10: a copied schema is equal and independent."""
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('schemas of 3 fields (set, unset, None), copies of copies, histories of 2 (thorough: 3) assignments/updates on any of the objects, '
          'each succeeding or failing in any way; state objects of kind None/dict/list/custom; slotted and unslotted schemas')
ASSUMPTIONS = ['shared nested objects are shared on purpose (shallow copy), as the property says: field values of each schema']


def same_fields(H, a, b, names='abc'):
    return same_state(H, state_of(a, names), state_of(b, names))


def histories(H):
    w = World(H, ('ok',))
    descr = [F('a', 'ka', required=False, none=True), F('b', required=False, none=True, vals=('vb',)), F('c', required=False)]
    cls = make_schema(w, descr)
    present = H.choice('present', ('abc', 'a', ''))
    w.begin('init')
    s = construct_quietly(H, w, cls, descr, present)
    cp = s.copy()
    H.check(type(cp) is cls and cp is not s, 'a new schema of the same class')
    H.check(same_fields(H, s, cp), 'the same values and unset fields')
    objs = [s, cp]
    if H.flip('copy of the copy'):
        objs.append(cp.copy())
        H.check(same_fields(H, s, objs[2]), 'the copy of the copy as well')
    states = [state_of(o, 'abc') for o in objs]
    set_outs(cls, descr, ('ok', 'value', 'foreign'))
    descr[1].vouts = ('ok',)
    for op in H.bound(('one', 'two'), ('one', 'two', 'three')):
        w.begin(op)
        i = H.choice('who.' + op, tuple(range(len(objs))))
        how = H.choice('how.' + op, ('set a', 'set c', 'update', 'bad update'))
        v = H.value('v.' + op, INPUT)
        es = {'set a': [('ka', v)], 'set c': [('c', v)], 'update': [('ka', v), ('b', 1)], 'bad update': [('b', v), ('zz', 1)]}[how]
        if how.startswith('set'):
            ok, r = w.attempt(setattr, objs[i], how[-1], v)
        else:
            ok, r = w.attempt(objs[i].update, dict(es))
        p = predict(w, descr, es, op, False, mode='update')
        H.check(ok == p.ok, 'copy and original validate the same way')
        if ok:
            H.cover('changed')
            states[i] = dict(states[i])
            states[i].update(p.values)
        else:
            H.cover('failed')
        for o, st in zip(objs, states):
            H.check(same_state(H, st, state_of(o, 'abc')), 'only the changed object changes')


class Thing:
    def __init__(self, x):
        self.x = x


def context(H):
    """The context of the copy: refers to the copy, shallow copy of the state, independent."""
    kind = H.choice('state', ('none', 'dict', 'list', 'thing', 'value'))
    inner = []
    st = {'none': None, 'dict': {'k': inner}, 'list': [inner], 'thing': Thing(inner), 'value': H.value('st', Spec(('int', 'str', 'none')))}[kind]
    slotted = H.flip('slotted')

    class S(oblate.Schema):
        a = fields.Any(none=True, required=False)

        class Config(oblate.SchemaConfig):
            pass
    s = type(oblate.Schema)('S2', (S,), {'Config': type('Config', (oblate.SchemaConfig,), {'slotted': slotted}), '__module__': __name__})(
        {'a': 1} if H.flip('set') else {}, state=st)
    if not slotted:
        s.extra = 'e'
    c = s.copy()
    H.check(c.context is not s.context and c.context.schema is c and s.context.schema is s, 'each context refers to its schema')
    H.check(c.context.config is s.context.config, 'same configuration')
    H.check(c.context.is_initialized() and s.context.is_initialized(), 'both are initialized')
    H.check(s.context.state is st or kind == 'value', 'the state of the original is untouched')
    if kind in ('none', 'value'):
        H.check(H.same(c.context.state, s.context.state), 'same state')
    else:
        H.check(c.context.state is not st and type(c.context.state) is type(st), 'the state is copied')
        get = {'dict': lambda x: x['k'], 'list': lambda x: x[0], 'thing': lambda x: x.x}[kind]
        H.check(get(c.context.state) is inner, 'shallowly')
        if kind == 'dict':
            c.context.state['n'] = 1
            H.check('n' not in s.context.state, 'independent')
        elif kind == 'list':
            s.context.state.append(1)
            H.check(len(c.context.state) == 1, 'independent')
        else:
            c.context.state.x = 5
            H.check(st.x is inner, 'independent')
    if not slotted:
        H.check(c.extra == 'e', 'attributes are copied')
    H.cover('context')


def observers(H):
    """User code sees the copy while the copy is changed or dumped."""
    w = World(H, ('ok',))
    descr = [F('a', none=True, required=False, vals=('v',))]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, 'a')
    c = s.copy()
    who = H.choice('who', ('original', 'copy'))
    o = s if who == 'original' else c
    w.begin('op')
    how = H.choice('how', ('set', 'update', 'dump', 'fail'))
    if how == 'set':
        o.a = 5
    elif how == 'update':
        o.update({'a': 5})
    elif how == 'dump':
        o.dump()
    else:
        ok, r = w.attempt(o.update, {'zz': 1})
        H.check(not ok and r.schema is o and r.errors[0].schema is o, 'errors belong to the changed object')
    for e in w.log:
        ctx = e[3]
        H.check(ctx.schema is o, 'contexts belong to the changed object')
        if e[0] == 'val':
            H.check(e[4] is o, 'validators get it')
        if e[0] == 'load':
            H.check(ctx.is_update() is True, 'an update')
    H.cover('observed')


def builtin(H):
    """Copies dump the same and stay independent, with nested schemas and frozen fields."""
    class In(oblate.Schema):
        x = fields.Integer(none=True)

    class S(oblate.Schema):
        n = fields.Object(In, none=True, required=False)
        i = fields.Integer(strict=False, default=3)
        f = fields.String(frozen=True, required=False)
    data = {}
    if H.flip('n'):
        data['n'] = {'x': H.value('x', Spec(('int', 'none')))} if H.flip('nv') else None
    if H.flip('i'):
        data['i'] = H.value('i', Spec(('int', 'str'), strings=('1', 'z')))
    if H.flip('f'):
        data['f'] = 'q'
    ok, s = H.attempt(S, data)
    if not ok:
        return
    d = s.dump()
    c = s.copy()
    H.check(H.eq(c.dump(), d), 'the copy dumps the same')
    if H.flip('change copy'):
        a, b = c, s
    else:
        a, b = s, c
    v = H.value('new', Spec(('int', 'str', 'none'), strings=('5', 'y')))
    H.attempt(setattr, a, 'i', v)
    H.attempt(a.update, {'n': {'x': v}})
    H.check(H.eq(b.dump(), d), 'the other one is unchanged')
    if 'f' in data:
        ok, r = H.attempt(setattr, c, 'f', 'z')
        H.check(not ok and isinstance(r, oblate.FrozenError), 'frozen fields of the copy are frozen')
    H.cover('independent')


histories.covers = ('changed', 'failed')
context.covers = ('context',)
observers.covers = ('observed',)
builtin.covers = ('independent',)
SCENARIOS = dict(histories=histories, context=context, observers=observers, builtin=builtin)

SCENARIOS.update(
    blank=model.run(('copy',), model.FIELD + model.NESTED + ('has', 'value', 'state', 'load', 'which', 'swap', 'cfg_style', 'cfg_frozen'), ('copy', ('update', 'set')), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False}, covers=('ok',)),
    deviations=model.run(('copy',), model.FIELD + model.NESTED + ('has', 'value', 'state', 'load', 'which', 'swap', 'cfg_style', 'cfg_frozen'), ('copy', ('update', 'set', 'none'), ('none', 'set')), (2, 3), ('ok', 'value'), free=('swap',), covers=('ok',)),
    scale=scale(('copy',), ('construct', 'update')),
)
