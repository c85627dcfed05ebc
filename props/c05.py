"""C05: assigning a field validates like update() and never half-applies."""
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('schemas of 2-3 fields with up to 2 raw and 2 other validators, field set or unset before, every outcome of user code, '
          'two assignments in a row; built-in fields with values of kind None/bool/int/float/str/list')
ASSUMPTIONS = ['frozen fields: C06']


def errors_of(r):
    return [(e.key, e.message, None if e.field is None else e.field.name) for e in r.errors]


def against_update(H):
    """s1.a = v and s2.update({key: v}) have the same effect."""
    w = World(H, ('ok',))
    key = H.choice('key', ('a', 'ka', 'b'))
    descr = [F('a', key, none=H.bool('none'), required=False, raws=('r1', 'r2'), vals=('v1', 'v2'), vouts=ALLOUT[:2] + ('foreign',)),
             F('b', 'kb', required=False, none=True)]
    descr[0].vouts = ('ok',)
    cls = make_schema(w, descr)
    present = H.choice('present', ('ab', 'a', ''))
    cls.a.clear_validators()
    s1 = construct_quietly(H, w, cls, descr, present)
    s2 = construct_quietly(H, w, cls, descr, present)
    cls.a.add_validator(w.validator('v1', ('ok', 'value', 'foreign')))
    cls.a.add_validator(w.validator('r1', ('ok', 'value', 'foreign')), raw=True)
    cls.a.add_validator(w.validator('v2', FAIL))
    if H.flip('second raw'):
        cls.a.add_validator(w.validator('r2', FAIL), raw=True)
    cls.a.outs = ALLOUT
    before = state_of(s1, 'ab')
    H.check(same_state(H, before, state_of(s2, 'ab')), 'equal start')
    v = H.value('v', INPUT)
    w.begin('op')
    ok1, r1 = w.attempt(setattr, s1, 'a', v)
    log1 = [(e[0], e[1]) for e in w.log]
    w.begin('op')
    ok2, r2 = w.attempt(s2.update, {key: v})
    log2 = [(e[0], e[1]) for e in w.log]
    H.check(ok1 == ok2, 'assignment succeeds exactly when the update does')
    H.check(log1 == log2, 'the same user code runs in the same order')
    H.out('ok', ok1)
    if not ok1:
        H.check(type(r1) is type(r2), 'the same kind of exception')
        H.check(same_state(H, before, state_of(s1, 'ab')), 'a failed assignment changes nothing')
        if isinstance(r1, oblate.ValidationError):
            H.cover('invalid')
            H.check(errors_of(r1) == errors_of(r2), 'the same errors, under the load key')
            H.check(r1.raw() == r2.raw(), 'the same raw form')
            H.check([e.key for e in r1.errors] == [key] * len(r1.errors), 'reported under the load key')
        else:
            H.cover('foreign')
    else:
        H.cover('valid')
        want = dict(before)
        want['a'] = None if v is None else w.result('load', 'a')
        H.check(same_state(H, want, state_of(s1, 'ab')), 'the deserialized value is stored, other fields unchanged')
        H.check(same_state(H, want, state_of(s2, 'ab')), 'same as update')


def oracle(H):
    """Assignment against the documented rules directly."""
    w = World(H, ('ok',))
    descr = [F('a', 'ka', none=H.bool('none'), required=False), F('b', 'a', required=False, none=True),
             F('c', required=False, none=True)]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('abc', 'a', 'b', '')))
    descr[0].vals, descr[0].raws, descr[0].vouts = ('v1', 'v2'), ('r1',), FAIL
    cls.a.add_validator(w.validator('v1', FAIL))
    cls.a.add_validator(w.validator('v2', FAIL))
    cls.a.add_validator(w.validator('r1', FAIL), raw=True)
    set_outs(cls, descr, ('ok', 'value', 'assert', 'field', 'empty', 'foreign'))
    state = state_of(s, 'abc')
    for op in ('one', 'two'):
        w.begin(op)
        v = H.value('v.' + op, INPUT)
        ok, r = w.attempt(setattr, s, 'a', v)
        p = predict(w, descr, [('ka', v)], op, False, mode='update')
        if check_result(H, w, p, ok, r, 'assignment'):
            H.check(same_multiset(observed_errors(descr, [('ka', v)], r), p.errors), 'exactly the failures, under the load key')
        want = dict(state)
        want.update(p.values if p.ok else {})
        state = state_of(s, 'abc')
        H.check(same_state(H, want, state), 'stored exactly when valid; no other field changes')
        if op == 'one' and not H.thorough and not H.flip('again'):
            break


def same(H):
    """Assigning the very object that is stored, or an equal one, is an assignment like any other."""
    w = World(H, ('ok',))
    descr = [F('a', 'ka', none=True, required=False), F('b', required=False, none=True)]
    cls = make_schema(w, descr)
    s = cls({'ka': H.value('init', NONNULL), 'b': 1})
    v = H.choice('v', ('stored', 'copy'))
    v = s.a if v == 'stored' else H.value('other', ANY)
    set_outs(cls, descr, ('ok', 'value', 'foreign'))
    cls.a.add_validator(w.validator('v', FAIL))
    cls.a.add_validator(w.validator('r', FAIL), raw=True)
    before = state_of(s, 'ab')
    w.begin('op')
    ok, r = w.attempt(setattr, s, 'a', v)
    log = [(e[0], e[1]) for e in w.log if e[0] != 'format']
    H.check(log[0] == ('val', 'r') and w.log[0][2] is v, 'the raw validator sees the value')
    if v is None:
        fails = w.outcome('val', 'r', FAIL) != 'ok'
        want = None
        H.check(log == [('val', 'r')], 'None is not deserialized')
    else:
        H.check(('load', 'a') in log, 'the value is deserialized')
        o = w.outcome('load', 'a', ('ok', 'value', 'foreign'))
        fails = o != 'ok' or w.outcome('val', 'r', FAIL) != 'ok' or w.outcome('val', 'v', FAIL) != 'ok'
        want = w.result('load', 'a')
        H.check((('val', 'v') in log) == (o == 'ok'), 'and validated')
    H.check(ok == (not fails), 'accepted exactly when valid')
    H.check(same_state(H, state_of(s, 'ab'), dict(before, a=want) if ok else before), 'stored exactly when valid')
    H.cover('valid' if ok else 'invalid')


def builtin(H):
    """Built-in fields: what an assignment accepts and stores is what update() accepts and stores."""
    class In(oblate.Schema):
        x = fields.Integer()

    class S(oblate.Schema):
        i = fields.Integer(none=H.bool('none'), required=False, load_key='key')
        s = fields.String(strict=H.flip('strict'), required=False)
        l = fields.List(int, required=False, none=True)
        n = fields.Object(In, required=False)
        u = fields.Union(int, str, required=False)
        b = fields.Boolean(strict=False, required=False)
    f = H.choice('field', ('i', 's', 'l', 'n', 'u', 'b'))
    key = 'key' if f == 'i' else f
    pre = {'key': H.int('i0'), 's': 'old', 'l': [1], 'n': {'x': 1}, 'u': 3, 'b': True} if H.flip('set') else {}
    s1, s2 = S(pre), S(pre)
    names = ('i', 's', 'l', 'n', 'u', 'b')
    b1, b2 = state_of(s1, names), state_of(s2, names)
    sp = Spec(('none', 'bool', 'int', 'float', 'str', 'list', 'obj'), elem=Spec(('int', 'str')), maxlen=1, strings=('true', 'x', '5'))
    v = {'x': H.value('x', sp)} if H.flip('mapping') else H.value('v', sp)
    ok1, r1 = H.attempt(setattr, s1, f, v)
    ok2, r2 = H.attempt(s2.update, {key: v})
    H.check(ok1 == ok2, 'assignment succeeds exactly when the update does')
    a1, a2 = state_of(s1, names), state_of(s2, names)
    for n in names:
        if n != f:
            H.check(same_value(H, a1[n], b1[n]), 'other fields unchanged')
    if ok1:
        H.cover('valid')
        if type(a1[f]) is In:
            H.check(type(a2[f]) is In and (a1[f] is v or H.same(a1[f].x, a2[f].x)), 'same nested schema')
        else:
            H.check(same_value(H, a1[f], a2[f]), 'same value stored')
    else:
        H.cover('invalid')
        H.check(isinstance(r1, oblate.ValidationError) and isinstance(r2, oblate.ValidationError), 'validation error')
        H.check(same_value(H, a1[f], b1[f]), 'a failed assignment keeps the value')
        H.check(list(r1.raw()) == [key], 'reported under the load key')
        H.check(len(r1.errors) == len(r2.errors), 'as many errors as for the update')


against_update.covers = oracle.covers = ('valid', 'invalid', 'foreign')
same.covers = builtin.covers = ('valid', 'invalid')
SCENARIOS = dict(against_update=against_update, oracle=oracle, builtin=builtin, same=same)

SCENARIOS.update(
    blank=model.run(('assign',), model.FIELD + model.DATA + model.USER + ('which',), ('set', ('none', 'set')), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False}),
    deviations=model.run(('assign',), model.FIELD + model.DATA + model.USER + ('which',), ('set',), (2, 3), model.OUTCOMES, free=('which',)),
    rich=model.run(('assign', 'errors'), model.FIELD + model.DATA + model.USER + ('which',), ('set',), (3, 4), ('ok', 'value', 'fieldempty'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}, free=('load', 'val'), plain_init=True),
    later=model.run(('assign',), model.FIELD + model.DATA + model.USER + ('which',), (('update', 'set'), 'set'), (2, 3), ('ok', 'value', 'foreign'), plain_init=True),
    strange=model.run(('assign',), model.FIELD + model.DATA + model.USER + model.NESTED + ('which',), ('set',), (2, 3), model.STRANGE, base={'vals.a': 1, 'raws.b': 1}, free=('which',), plain_init=True, covers=('ok', 'failed', 'raised')),
)
