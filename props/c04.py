"""C04: update() is all-or-nothing."""
import collections.abc
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('schemas of 2-3 fields, update data of up to 3 entries (arbitrary string keys in one scenario), each field set or unset before, '
          'outcomes of user code: success, the three validation failures, foreign exceptions (also not derived from Exception); '
          'data failing at any iteration step; two updates in a row; re-entrant changes made by validators')
ASSUMPTIONS = ['update() is given data with an items() method; other objects only have to leave the schema unchanged']
OUT = ('ok', 'value', 'assert', 'field', 'foreign', 'base')


def check_update(H, w, descr, s, before, entries, p, ok, r):
    names = [f.name for f in descr]
    after = state_of(s, names)
    check_result(H, w, p, ok, r, 'update')
    if not p.ok:
        H.check(same_state(H, before, after), 'a failed update leaves every field as it was')
    else:
        want = dict(before)
        want.update(p.values)
        H.check(same_state(H, want, after), 'a successful update applies every entry and nothing else')
    H.out('ok', ok)
    return after


def entries_(H):
    """Every combination of outcomes over three fields, one possibly frozen."""
    w = World(H, FAIL)
    frozen = H.choice('frozen', ('none', 'a', 'b', 'c'))
    descr = [F('a', none=True, required=False, frozen=frozen == 'a', raws=('ra',)),
             F('b', 'kb', none=H.bool('b.none'), required=False, frozen=frozen == 'b', vals=('vb',)),
             F('c', 'b', none=True, required=False, frozen=frozen == 'c')]
    w.vouts = ('ok',)
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('abc', 'b', '')))
    before = state_of(s, 'abc')
    order = H.choice('order', ('abc', 'cba', 'ab', 'bc'))
    es = [(f.key, H.value('v.' + f.name, INPUT)) for f in sorted([f for f in descr if f.name in order], key=lambda f: order.index(f.name))]
    unknown = H.choice('unknown', ('no', 'last'))
    if unknown == 'last':
        es.append(('zz', 1))
    w.begin('op')
    ok, r = w.attempt(s.update, dict(es))
    p = predict(w, descr, es, 'op', False, mode='update')
    check_update(H, w, descr, s, before, es, p, ok, r)


def outcomes(H):
    """One and two entries with every kind of failure of deserializer and validators."""
    w = World(H, ('ok',))
    descr = [F('a', none=True, required=False), F('b', none=False, required=False, vals=('vb',), raws=('rb',))]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('ab', 'a', '')))
    set_outs(cls, descr, OUT)
    cls.b.clear_validators()
    cls.b.add_validator(w.validator('vb', OUT))
    cls.b.add_validator(w.validator('rb', FAIL), raw=True)
    w.vouts = OUT
    before = state_of(s, 'ab')
    es = [('b', H.value('v.b', INPUT))]
    pos = H.choice('pos', ('alone', 'first', 'last'))
    if pos != 'alone':
        es.insert(0 if pos == 'first' else 1, ('a', H.value('v.a', INPUT)))
    w.begin('op')
    ok, r = w.attempt(s.update, dict(es))
    w.outcome('val', 'rb', FAIL, 'op')
    p = predict(w, descr, es, 'op', False, mode='update')
    check_update(H, w, descr, s, before, es, p, ok, r)


class Failing(collections.abc.Mapping):
    """A mapping whose iteration fails at a chosen step."""
    def __init__(self, pairs, at, exc, where):
        self.pairs, self.at, self.exc, self.where = pairs, at, exc, where

    def __getitem__(self, k):
        for i, (key, v) in enumerate(self.pairs):
            if key == k:
                if self.where == 'getitem' and i == self.at:
                    raise self.exc('boom')
                return v
        raise KeyError(k)

    def __iter__(self):
        for i, (key, v) in enumerate(self.pairs):
            if self.where == 'iter' and i == self.at:
                raise self.exc('boom')
            yield key

    def __len__(self):
        return len(self.pairs)


def failing_data(H):
    """The data itself fails at any step of its iteration, or is no mapping at all."""
    w = World(H, ('ok',))
    descr = [F('a', required=False, none=True), F('b', 'kb', required=False, none=True), F('c', required=False, none=True)]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('abc', 'b', '')))
    before = state_of(s, 'abc')
    w.begin('op')
    kind = H.choice('kind', ('iter', 'getitem', 'none', 'list', 'int', 'pairs'))
    pairs = [(f.key, H.value('v.' + f.name, INPUT)) for f in descr]
    if kind in ('iter', 'getitem'):
        n = H.choice('at', (0, 1, 2, 3))
        exc = H.choice('exc', (ValueError, KeyError, Foreign, ForeignBase, oblate.FieldError)) if kind == 'iter' else Foreign
        if exc is oblate.FieldError:
            exc = Foreign
        data = Failing(pairs, n, exc, kind)
        ok, r = w.attempt(s.update, data)
        H.check(ok == (n == 3), 'fails exactly when the data fails')
    else:
        n = 0
        data = {'none': None, 'list': ['a'], 'int': 1, 'pairs': pairs}[kind]
        ok, r = w.attempt(s.update, data)
        H.check(not ok, 'data that is not a mapping is not applied')
    H.cover('failed' if not ok else 'applied')
    after = state_of(s, 'abc')
    if ok:
        H.check(same_state(H, {f.name: None if v is None else w.result('load', f.name) for f, (k, v) in zip(descr, pairs)}, after), 'all applied')
    else:
        H.check(same_state(H, before, after), 'a failed update leaves every field as it was')


def keys(H):
    """Arbitrary distinct keys, ignore_extra on or off."""
    H.universe('a', 'ka', 'b')
    w = World(H, ('ok',))
    descr = [F('a', 'ka', required=False, none=H.bool('a.none')), F('b', required=False, frozen=H.flip('b.frozen'), none=True)]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('ab', '')))
    before = state_of(s, 'ab')
    es = [(H.str('k%d' % i), H.value('v%d' % i, INPUT)) for i in range(H.choice('n', (0, 1, 2)))]
    set_outs(cls, descr, FAIL)
    ign = H.flip('ignore')
    w.begin('op')
    ok, r = w.attempt(s.update, mapping(H, es), ignore_extra=ign)
    p = predict(w, descr, es, 'op', ign, mode='update')
    check_update(H, w, descr, s, before, es, p, ok, r)


def twice(H):
    """A failing update between two others: nothing of it remains."""
    w = World(H, ('ok',))
    descr = [F('a', required=False, none=True), F('b', required=False, none=True)]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('ab', 'a', '')))
    state = state_of(s, 'ab')
    set_outs(cls, descr, ('ok', 'value', 'foreign'))
    for i, op in enumerate(H.bound(('one', 'two'), ('one', 'two', 'three'))):
        w.begin(op)
        which = H.choice('which.' + op, ('ab', 'a', 'b', 'bx'))
        es = [(n if n != 'x' else 'zz', H.value('v.%s.%s' % (n, op), NONNULL)) for n in which]
        ok, r = w.attempt(s.update, dict(es))
        p = predict(w, descr, es, op, False, mode='update')
        state = check_update(H, w, descr, s, state, es, p, ok, r)


def reentrant(H):
    """User code changes the same schema while an update is running that fails later."""
    w = World(H, ('ok',))
    descr = [F('a', required=False, none=True), F('b', required=False, none=True), F('c', required=False, none=True)]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('abc', 'a', '')))
    before = state_of(s, 'abc')
    how = H.choice('how', ('set', 'update', 'failing update', 'dump', 'copy'))

    def inner(*args):
        w.hooks.clear()
        keep = w.op
        w.op = 'inner'
        if how == 'set':
            s.c = 7
        elif how == 'update':
            s.update({'c': 1, 'b': 2})
        elif how == 'failing update':
            w.attempt(s.update, {'c': 1, 'zz': 2})
        elif how == 'copy':
            s.copy().c = 5
        else:
            s.dump()
        w.op = keep
    w.hooks['load', H.choice('where', ('a', 'b'))] = inner
    w.begin('op')
    end = H.choice('end', ('unknown', 'value', 'foreign'))
    cls.b.outs = descr[1].outs = ('ok',) if end == 'unknown' else (end,)
    es = [('a', 1), ('b', 2)] + ([('zz', 3)] if end == 'unknown' else [])
    if H.flip('single'):
        del es[0]
    ok, r = w.attempt(s.update, dict(es))
    H.check(not ok, 'the update fails')
    H.cover('failed')
    H.check(same_state(H, before, state_of(s, 'abc')), 'a failed update leaves every field as it was')


def nested(H):
    """Nested schemas: a failing nested load in an update keeps the old nested object."""
    class In(oblate.Schema):
        x = fields.Integer()
        y = fields.String(required=False)

    class Out(oblate.Schema):
        n = fields.Object(In, none=True)
        z = fields.Integer()
        l = fields.List(int, required=False)
    s = Out({'n': {'x': H.int('x0')}, 'z': H.int('z0')})
    n0, z0 = s.n, s.z
    x0 = n0.x
    data = {}
    v = Spec(('int', 'str', 'none'))
    kind = H.choice('n', ('absent', 'mapping', 'other'))
    if kind == 'mapping':
        data['n'] = {'x': H.value('x', v)}
    elif kind == 'other':
        data['n'] = H.value('nv', v)
    if H.flip('has.z'):
        data['z'] = H.value('z', v)
    if H.flip('has.l'):
        data['l'] = [H.value('l', v)]
    ok, r = H.attempt(s.update, data)
    good = H.And(kind != 'mapping' or isinstance(data['n']['x'], int), kind != 'other' or data['n'] is None,
                 'z' not in data or isinstance(data['z'], int), 'l' not in data or isinstance(data['l'][0], int))
    H.check(H.iff(ok, good), 'applied exactly when everything is valid')
    H.check(H.same(n0.x, x0), 'the old nested schema is not changed')
    if ok:
        H.cover('applied')
        H.check(H.same(s.z, data.get('z', z0)), 'z')
        if kind == 'absent':
            H.check(s.n is n0, 'not named: untouched')
        elif kind == 'mapping':
            H.check(H.same(s.n.x, data['n']['x']), 'nested value')
        else:
            H.check(s.n is None, 'None stored')
    else:
        H.cover('failed')
        H.check(isinstance(r, oblate.ValidationError), 'validation error')
        H.check(s.n is n0 and H.same(s.z, z0) and s.get_value_for('l', UNSET) is UNSET, 'a failed update leaves every field as it was')


entries_.covers = keys.covers = ('valid', 'invalid', 'frozen')
outcomes.covers = twice.covers = ('valid', 'invalid', 'foreign')
nested.covers = ('applied', 'failed')
failing_data.covers = ('applied', 'failed')
reentrant.covers = ('failed',)
SCENARIOS = dict(entries=entries_, outcomes=outcomes, failing_data=failing_data, keys=keys, twice=twice, reentrant=reentrant, nested=nested)

SCENARIOS.update(
    blank=model.run(('update',), model.FIELD + model.DATA + model.USER, ('update', ('none', 'update')), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False}),
    deviations=model.run(('update', 'construct'), model.FIELD + model.DATA + model.USER, ('update',), (2, 3), model.OUTCOMES),
    rich=model.run(('update',), model.FIELD + model.DATA + model.USER, ('update',), (2, 3), ('ok', 'value'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}, free=('load', 'val'), plain_init=True),
    later=model.run(('update',), model.FIELD + model.DATA + model.USER, (('update', 'set'), 'update'), (2, 3), ('ok', 'value', 'foreign'), plain_init=True),
    strange=model.run(('update',), model.FIELD + model.DATA + model.USER + model.NESTED, ('update',), (2, 3), model.STRANGE, base={'vals.a': 1, 'raws.b': 1}, plain_init=True, covers=('ok', 'failed', 'raised')),
    scale=scale(('end', 'kept', 'values'), ('update',)),
)
