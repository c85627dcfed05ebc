"""C06: frozen schemas and frozen fields never change after construction."""
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('schemas of 2-3 fields with symbolic frozen flags, histories of up to 2 (thorough: 3) updates/assignments with valid, invalid, '
          'equal and None values; inheritance and copies of frozen schemas; built-in fields')
ASSUMPTIONS = []


def attempts(H):
    """Histories of assignments and updates on schemas with any frozen fields."""
    w = World(H, ('ok',))
    sf = H.choice('schema frozen', ('no', 'yes', 'inherited', 'overridden'))
    descr = [F('a', required=False, none=True, frozen=H.bool('a.frozen')),
             F('b', 'kb', required=False, none=True, frozen=H.bool('b.frozen')),
             F('c', required=False, none=True)]
    if sf in ('no', 'yes'):
        cls = make_schema(w, descr, config={'frozen': sf == 'yes'})
    else:
        base = make_schema(w, [], 'Base', config={'frozen': True})
        cls = make_schema(w, descr, 'Sub', base=base, config={'frozen': False} if sf == 'overridden' else None)
    all_frozen = sf in ('yes', 'inherited')
    present = H.choice('present', ('abc', ''))
    s = construct_quietly(H, w, cls, descr, present)
    state = state_of(s, 'abc')
    H.check(sorted(n for n in state if state[n] is not UNSET) == list(present), 'construction sets frozen fields')
    target = s.copy() if H.flip('on a copy') else s
    set_outs(cls, descr, FAIL)
    for op in H.bound(('one',), ('one', 'two')):
        w.begin(op)
        how = H.choice('how.' + op, ('set', 'update', 'update with c', 'c first'))
        f = descr[H.choice('field.' + op, (0, 1))]
        v = H.value('v.' + op, INPUT)
        if how == 'set':
            ok, r = w.attempt(setattr, target, f.name, v)
            es = [(f.key, v)]
        else:
            es = {'update': [(f.key, v)], 'update with c': [(f.key, v), ('c', 1)], 'c first': [('c', 1), (f.key, v)]}[how]
            ok, r = w.attempt(target.update, dict(es))
        now = state_of(target, 'abc')
        if all_frozen:
            H.cover('schema frozen')
            H.check(not ok and type(r) is oblate.FrozenError, 'FrozenError on a frozen schema')
            H.check(r.entity is target, 'names the schema')
            H.check(same_state(H, state, now), 'nothing changes')
        elif f.frozen:
            H.cover('field frozen')
            H.check(not ok and type(r) is oblate.FrozenError, 'FrozenError on a frozen field')
            H.check(r.entity is getattr(cls, f.name), 'names the field')
            H.check(f.name in str(r), 'the text names the field')
            H.check(same_state(H, state, now), 'nothing changes')
        else:
            H.cover('writable')
            p = predict(w, descr, es, op, False, mode='update')
            H.check(ok == p.ok, 'non-frozen fields stay writable')
            want = dict(state)
            want.update(p.values if p.ok else {})
            H.check(same_state(H, want, now), 'changed exactly when valid')
        state = now


def equal_values(H):
    """Built-in fields: writing any value, also the very same one, is refused."""
    class S(oblate.Schema):
        i = fields.Integer(frozen=True, required=False, none=True)
        s = fields.String(frozen=True, required=False, default='d', none=True)
        o = fields.Integer(required=False)
        l = fields.List(frozen=True, required=False)
    data = {}
    if H.flip('set'):
        data = {'i': H.value('i', Spec(('int', 'none'))), 's': H.value('s', Spec(('str', 'none'))), 'l': []}
    s = S(data)
    names = ('i', 's', 'o', 'l')
    before = state_of(s, names)
    f = H.choice('field', ('i', 's', 'l'))
    v = H.choice('v', ('same', 'other'))
    v = before[f] if v == 'same' and before[f] is not UNSET else H.value('new', Spec(('none', 'int', 'str', 'obj')))
    how = H.choice('how', ('set', 'update', 'update kw', 'mixed'))
    if how == 'set':
        ok, r = H.attempt(setattr, s, f, v)
    elif how == 'update':
        ok, r = H.attempt(s.update, {f: v})
    elif how == 'update kw':
        ok, r = H.attempt(s.update, {'zz': 1, f: v}, ignore_extra=True)
    else:
        ok, r = H.attempt(s.update, {'o': 1, f: v})
    H.check(not ok and isinstance(r, oblate.FrozenError), 'FrozenError whatever the value')
    H.check(same_state(H, before, state_of(s, names)), 'nothing changes')
    H.cover('refused')


def empty_data(H):
    """A frozen schema refuses every update, an empty or invalid one included; others accept an empty update."""
    frozen = H.flip('frozen')

    class S(oblate.Schema):
        a = fields.Integer(required=False)
        b = fields.Integer(required=False, frozen=True)

        class Config(oblate.SchemaConfig):
            pass
    S.Config.frozen = frozen
    s = S({'a': 1} if H.flip('has') else {})
    before = state_of(s, 'ab')
    kind = H.choice('data', ('empty', 'unknown', 'ignored', 'a', 'bad a'))
    data = {'empty': {}, 'unknown': {'zz': 1}, 'ignored': {'zz': 1}, 'a': {'a': 2}, 'bad a': {'a': 'x'}}[kind]
    ok, r = H.attempt(s.update, data, ignore_extra=kind == 'ignored')
    if frozen:
        H.cover('frozen')
        H.check(not ok and isinstance(r, oblate.FrozenError) and r.entity is s, 'every update is refused')
        H.check(same_state(H, before, state_of(s, 'ab')), 'unchanged')
    else:
        H.cover('free')
        H.check(ok == (kind in ('empty', 'ignored', 'a')), 'updates without frozen fields work')
    ok, r = H.attempt(setattr, s, 'a', 5)
    H.check(ok != frozen, 'assignments are refused exactly on frozen schemas')
    H.check(ok or isinstance(r, oblate.FrozenError), 'FrozenError')


def shapes(H):
    """Frozen fields reached through inheritance, copies of fields and load keys of other fields' names."""
    class Base(oblate.Schema):
        a = fields.Any(frozen=H.bool('base.a'), required=False, load_key='x')
        b = fields.Any(required=False, load_key='a')

    class Sub(Base):
        c = Base.a.copy()
        d = fields.Any(required=False, frozen=True, default=None)
    if H.flip('redefined'):
        class Sub2(Sub):
            a = fields.Any(required=False, frozen=H.bool('sub.a'), load_key='y')
        cls, fa, akey = Sub2, H.bool('sub.a'), 'y'
        has_c = True
        ckey = 'x'
    else:
        cls, fa, akey = Sub, H.bool('base.a'), None
        ckey = 'x'
    s = cls({})
    names = ('a', 'b', 'c', 'd')
    before = state_of(s, names)
    n = H.choice('name', names)
    frozen = {'a': fa, 'b': False, 'c': H.bool('base.a'), 'd': True}[n]
    key = {'a': akey, 'b': 'a', 'c': ckey, 'd': 'd'}[n]
    if key is not None and H.flip('update'):
        ok, r = H.attempt(s.update, {key: 1})
    else:
        ok, r = H.attempt(setattr, s, n, 1)
    H.check(H.iff(ok, H.Not(frozen)), 'writable exactly when not frozen')
    if ok:
        H.cover('written')
        before[n] = 1
    else:
        H.cover('refused')
        H.check(isinstance(r, oblate.FrozenError) and r.entity is getattr(cls, n), 'names the field')
    H.check(same_state(H, before, state_of(s, names)), 'only that field changed')


def during(H):
    """Frozen is about the time after construction: hooks after construction cannot write either."""
    result = []

    class S(oblate.Schema):
        a = fields.Any(frozen=True, default=H.value('d', ANY))
        b = fields.Any(required=False)

        def __schema_post_init__(self):
            result.append(H.attempt(setattr, self, 'a', 5))
            result.append(H.attempt(self.update, {'a': 5}))
            self.b = 1
    data = {'a': H.value('v', ANY)} if H.flip('given') else {}
    ok, s = H.attempt(S, data)
    if 'a' in data and data['a'] is None:
        H.check(not ok, 'None refused')
        return
    H.check(ok and [x[0] for x in result] == [False, False], 'refused after construction')
    H.check(all(isinstance(x[1], oblate.FrozenError) for x in result), 'FrozenError')
    H.check(H.same(s.a, data['a'] if data else H.value('d', ANY)), 'value of the construction')
    H.cover('checked')


attempts.covers = ('schema frozen', 'field frozen', 'writable')
equal_values.covers = ('refused',)
empty_data.covers = ('frozen', 'free')
shapes.covers = ('written', 'refused')
during.covers = ('checked',)
SCENARIOS = dict(attempts=attempts, equal_values=equal_values, empty_data=empty_data, shapes=shapes, during=during)

SCENARIOS.update(
    deviations=model.run(('update', 'assign'), model.FIELD + model.DATA + model.USER + ('which', 'cfg_frozen', 'cfg_style'), (('update', 'set'),), (2, 3), ('ok', 'value', 'foreign'), base={'frozen.a': True}),
    frozen_schema=model.run(('update', 'assign', 'construct'), model.FIELD + model.DATA + model.USER + ('which', 'cfg_frozen', 'cfg_style', 'init_kwargs', 'typ', 'obj'), (('update', 'set'),), (2, 3), ('ok', 'value'), base={'cfg_frozen': True}, covers=('ok', 'raised')),
    copied=model.run(('update', 'assign', 'copy'), model.FIELD + ('which', 'cfg_frozen', 'cfg_style', 'swap', 'has', 'value'), ('copy', ('update', 'set')), (2, 3), ('ok', 'value'), base={'frozen.a': True}, covers=('ok', 'raised')),
)
