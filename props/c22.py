"""C22: every registered validator runs, once, with the right value."""
import oblate
import model
from oblate import fields, validate
from common import *

BOUNDS = ('up to 2 raw and 2 other validators per field through every registration route, on load, update and assignment, with every outcome; '
          'registry histories of up to 3 (thorough: 4) add/remove/clear steps over 4 validators; registrations changed by a validator while it runs or while they are listed; two fields at a time; 8 (thorough: 14) validators of each kind with failures at any two')
ASSUMPTIONS = ['raw validators that are skipped for absent fields: nothing is loaded, so nothing is validated']
ROUTES = ('param', 'add', 'decorator', 'decorator by name', 'class in param', 'class added')


def class_validator(w, ident, raw, outs=None):
    f = w.validator(ident, outs)
    if raw:
        class RawV(validate.Validator, raw=True):
            def validate(self, value, context):
                return f(context.schema, value, context)
        return RawV()

    class V(validate.Validator):
        def validate(self, value, context):
            return f(context.schema, value, context)
    return V()


def method(w, ident, field, raw):
    f = w.validator(ident)

    def check(self, value, context):
        return f(self, value, context)
    return validate.field(field, raw=raw)(check)


def build(H, w, specs, **kw):
    """A schema whose field `a` has the validators (ident, raw, route) in that order."""
    params = []
    for ident, raw, route in specs:
        if route == 'param':
            f = w.validator(ident, raw=True) if raw else w.validator(ident)
            params.append(f)
        elif route == 'class in param':
            params.append(class_validator(w, ident, raw))
    if params:
        kw['validators'] = params
    a = HField(w, 'a', **kw)
    ns = {'a': a, '__module__': __name__}
    for ident, raw, route in specs:
        if route == 'add':
            a.add_validator(w.validator(ident), raw=raw)
        elif route == 'class added':
            # the class decides, whatever is passed
            a.add_validator(class_validator(w, ident, raw), raw=not raw)
        elif route == 'decorator':
            ns[ident] = method(w, ident, a, raw)
        elif route == 'decorator by name':
            ns[ident] = method(w, ident, 'a', raw)
    return type(oblate.Schema)('S', (oblate.Schema,), ns)


def expected_order(specs, raw):
    first = [s[0] for s in specs if s[1] == raw and s[2] in ('param', 'class in param')]
    then = [s[0] for s in specs if s[1] == raw and s[2] in ('add', 'class added')]
    last = [s[0] for s in specs if s[1] == raw and s[2] in ('decorator', 'decorator by name')]
    return first + then + last


def operate(H, w, S, value, op, key='a', name='a'):
    if op == 'load':
        w.begin('op')
        return w.attempt(S, {key: value})
    w.begin('init')
    fld = getattr(S, name)
    fld.outs = ('ok',)
    saved, w.outs, w.vouts = (w.outs, w.vouts), ('ok',), ('ok',)
    vs = list(fld.walk_validators(raw=False)), list(fld.walk_validators(raw=True))
    fld.clear_validators()
    s = S({key: H.value('init', NONNULL)})
    for v in vs[0]:
        fld.add_validator(v)
    for v in vs[1]:
        fld.add_validator(v, raw=True)
    w.outs, w.vouts = saved
    fld.outs = w.outs
    w.begin('op')
    ok, r = w.attempt(s.update, {key: value}) if op == 'update' else w.attempt(setattr, s, name, value)
    return ok, (s if ok else r)


def check_calls(H, w, value, result, raws, others, loaded, cls):
    calls = [c for c in w.log if c[0] == 'val']
    loads = [c for c in w.log if c[0] == 'load']
    got_raw = [c for c in calls if c[1] in raws]
    got = [c for c in calls if c[1] in others]
    H.check([c[1] for c in got_raw] == list(raws), 'every raw validator runs exactly once, in order')
    H.check(all([c[2] is value for c in got_raw]), 'raw validators get the raw input value')
    H.check([c[1] for c in got] == (list(others) if loaded else []), 'every other validator runs exactly once if there is a deserialized value to validate, in order')
    H.check(all([c[2] is result for c in got]), 'other validators get the deserialized value')
    H.check(len(calls) == len(got) + len(got_raw), 'no other validator runs')
    if calls:
        ctx = calls[0][3]
        H.check(all([c[3] is ctx for c in calls]) and all([c[3] is ctx for c in loads]), 'one load context for this value')
        H.check(ctx.value is value, 'the context holds the raw value')
        H.check(all([c[4] is ctx.schema for c in calls]) and isinstance(ctx.schema, cls), 'called with the schema')
        H.check(ctx.field is getattr(cls, 'a'), 'the context names the field')
        if raws:
            H.cover('raw called')
        if got:
            H.cover('called')


def dispatch(H):
    """All routes, kinds, values and outcomes."""
    w = World(H)
    nr, no = H.choice('n', ((1, 1), (2, 0), (0, 2), (2, 2)) if H.thorough else ((1, 1), (2, 0), (0, 2)))
    routes = ROUTES
    specs = []
    r0 = H.choice('route0', routes)
    r1 = H.choice('route1', routes if H.thorough else ('param', 'decorator', 'class added'))
    ids = [('r%d' % i, True) for i in range(nr)] + [('v%d' % i, False) for i in range(no)]
    for i, (ident, raw) in enumerate(ids):
        specs.append((ident, raw, r0 if i % 2 == 0 else r1))
    none = H.flip('none')
    S = build(H, w, specs, none=none)
    value = H.value('value', INPUT)
    op = H.choice('op', ('load', 'update', 'set'))
    ok, r = operate(H, w, S, value, op)
    loaded = value is not None and w.outcome('load', 'a', w.outs, 'op') == 'ok'
    check_calls(H, w, value, w.result('load', 'a', 'op') if loaded else None, expected_order(specs, True), expected_order(specs, False), loaded, S)
    fails = [i for i, raw in ids if (raw or loaded) and w.outcome('val', i, w.vouts, 'op') != 'ok']
    good = not fails and (loaded or (value is None and none))
    H.check(ok == good, 'a failing validator fails the operation, none is ignored')
    H.cover(op + (' accepted' if ok else ' rejected'))


def many(H):
    """Many validators of both kinds on one field; failures at any two of them, and what they return."""
    w = World(H)
    n = H.bound(8, 14)
    outs = ('ok', 'value', 'field')
    bad = {H.choice('bad.1', tuple(range(n))): 'one', H.choice('bad.2', tuple(range(n))): 'two'}
    calls = []

    def make(kind, i):
        def v(schema, value, context):
            calls.append((kind, i, value))
            if i in bad:
                w.fail(w.outcome('val', kind + bad[i], outs), '%s%d' % (kind, i))
            return RETURNS[i % len(RETURNS)]
        return v
    raws, vals = [make('r', i) for i in range(n)], [make('v', i) for i in range(n)]
    a = HField(w, 'a', outs=('ok',), validators=vals[:3])
    for i in range(n):
        a.add_validator(raws[i], raw=True)
        if i >= 3:
            a.add_validator(vals[i])
    S = type(oblate.Schema)('S', (oblate.Schema,), {'a': a, 'b': HField(w, 'b', outs=('ok',), required=False), '__module__': __name__})
    w.begin('op')
    op = H.choice('op', ('load', 'update', 'set'))
    if op == 'load':
        ok, r = w.attempt(S, {'a': 5, 'b': 1})
    else:
        a.clear_validators()
        s = S({'a': 1})
        for v in raws:
            a.add_validator(v, raw=True)
        for v in vals:
            a.add_validator(v)
        w.begin('op')
        ok, r = w.attempt(s.update, {'a': 5}) if op == 'update' else w.attempt(setattr, s, 'a', 5)
    res = w.result('load', 'a')
    H.check([c[:2] for c in calls] == [('r', i) for i in range(n)] + [('v', i) for i in range(n)], 'every validator runs once, in order')
    H.check(all([c[2] is (5 if c[0] == 'r' else res) for c in calls]), 'with the right value')
    exp = ['%s%d' % (k, i) for k in 'rv' for i in range(n) if i in bad and w.outcome('val', k + bad[i], outs) != 'ok']
    H.check(ok == (not exp), 'accepted exactly when no validator fails, whatever they return')
    if exp:
        H.check([e.message for e in r.errors] == exp and all([e.key == 'a' for e in r.errors]), 'each failure is reported once, in order')
    H.cover(op + (' accepted' if ok else ' rejected'))


def errors_do_not_stop(H):
    """Whatever the kind of failure, the remaining validators run (foreign exceptions excepted)."""
    w = World(H, vouts=('ok', 'value', 'assert', 'field', 'subfield', 'empty'))
    specs = [('r0', True, 'add'), ('r1', True, 'decorator'), ('v0', False, 'param'), ('v1', False, 'decorator by name')]
    S = build(H, w, specs)
    value = H.value('value', NONNULL)
    op = H.choice('op', ('load', 'update', 'set'))
    ok, r = operate(H, w, S, value, op)
    loaded = w.outcome('load', 'a', w.outs, 'op') == 'ok'
    check_calls(H, w, value, w.result('load', 'a', 'op') if loaded else None, ['r0', 'r1'], ['v0', 'v1'], loaded, S)
    H.cover(op + (' accepted' if ok else ' rejected'))


def registry(H):
    """Histories of adding, removing and clearing."""
    w = World(H)
    fs = {'f': w.validator('f'), 'g': w.validator('g'), 'C': class_validator(w, 'C', False), 'R': class_validator(w, 'R', True)}
    init = H.choice('initial', ((), ('f', 'R'), ('C', 'g', 'f')))
    a = HField(w, 'a', outs=('ok',), validators=[fs[i] for i in init])
    model = {True: [i for i in init if i == 'R'], False: [i for i in init if i != 'R']}
    names = {id(v): k for k, v in fs.items()}
    steps = []
    for k in ('f', 'g', 'C', 'R'):
        for raw in (False, True):
            if k in ('C', 'R') and raw:
                continue
            steps.append(('add', k, raw))
            steps.append(('remove', k, raw))
    steps += [('clear', None, None), ('clear', None, True), ('clear', None, False)]
    for n in range(H.bound(3, 4)):
        act, k, raw = steps[H.choice('step%d' % n, tuple(range(len(steps))))]
        if act == 'clear':
            if raw is None:
                a.clear_validators()
                model = {True: [], False: []}
            else:
                a.clear_validators(raw=raw)
                model[raw] = []
            H.cover('cleared')
            continue
        eff = {'C': False, 'R': True}.get(k, raw)
        kw = {'raw': True} if raw else {}
        if act == 'add':
            a.add_validator(fs[k], **kw)
            model[eff].append(k)
        else:
            a.remove_validator(fs[k], **kw)
            if k in model[eff]:
                model[eff].remove(k)
                H.cover('removed')
            else:
                H.cover('removed nothing')
    for raw in (True, False):
        H.check([names[id(v)] for v in a.walk_validators(raw=raw)] == model[raw], 'listing one kind lists exactly that kind')
    H.check(sorted(names[id(v)] for v in a.walk_validators()) == sorted(model[True] + model[False]), 'listing lists every validator')
    S = type(oblate.Schema)('S', (oblate.Schema,), {'a': a, '__module__': __name__})
    w.vouts = ('ok',)
    w.begin('op')
    value = H.value('value', NONNULL)
    w.fail = lambda o, l: None
    ok, r = w.attempt(S, {'a': value})
    H.check(ok, 'accepted')
    H.check([c[1] for c in w.log if c[0] == 'val' and c[2] is value] == model[True], 'exactly the registered raw validators run')
    H.check([c[1] for c in w.log if c[0] == 'val' and c[2] is r.a] == model[False], 'exactly the registered other validators run')
    H.check(len([c for c in w.log if c[0] == 'val']) == len(model[True]) + len(model[False]), 'nothing else runs')


def two_fields(H):
    """Validators belong to one field; absent fields validate nothing."""
    w = World(H)
    d = [F('a', key='A', none=True, required=False, raws=['ar'], vals=['av']), F('b', none=False, required=False, default=H.choice('default', (UNSET, None, 5)), raws=['br'], vals=['bv'])]
    S = make_schema(w, d)
    given = H.choice('given', (('a',), ('b',), ('a', 'b'), ('b', 'a'), ()))
    vals = {n: H.value('value.' + n, INPUT) for n in given}
    keys = {'a': 'A', 'b': 'b'}
    op = H.choice('op', ('load', 'update'))
    if op == 'load':
        w.begin('op')
        ok, r = w.attempt(S, {keys[n]: vals[n] for n in given})
    else:
        s = S({})
        w.begin('op')
        ok, r = w.attempt(s.update, {keys[n]: vals[n] for n in given})
    calls = [c for c in w.log if c[0] == 'val']
    exp = []
    for n in given:
        exp.append((n + 'r', vals[n]))
        if vals[n] is not None and w.outcome('load', n, w.outs, 'op') == 'ok':
            exp.append((n + 'v', w.result('load', n, 'op')))
    H.check(sorted(c[1] for c in calls) == sorted(e[0] for e in exp), 'exactly the validators of the given fields run, once')
    for c in calls:
        H.check(any([c[1] == e[0] and c[2] is e[1] for e in exp]), 'with the value of their own field')
        H.check(c[3].field is getattr(S, c[1][0]), 'with the context of their own field')
    H.cover(op + ' %d' % len(given))


def shared(H):
    """One validator object used for two fields, as raw and not raw, runs for each registration."""
    w = World(H)
    v = w.validator('x', ('ok', 'value'))
    a, b = HField(w, 'a', outs=('ok',)), HField(w, 'b', outs=('ok',), validators=[v, v])
    a.add_validator(v, raw=True)
    a.add_validator(v)
    S = type(oblate.Schema)('S', (oblate.Schema,), {'a': a, 'b': b, '__module__': __name__})
    w.begin('op')
    ok, r = w.attempt(S, {'a': 1, 'b': 2})
    H.check(len([c for c in w.log if c[0] == 'val' and c[3].field is a]) == 2, 'runs for each registration')
    H.check(len([c for c in w.log if c[0] == 'val' and c[3].field is b]) == 2, 'runs for each registration')
    if not ok:
        H.check(len(r.errors) == 4, 'each failing run is reported')
    H.cover('accepted' if ok else 'rejected')


def in_run(H):
    """A validator that changes the registrations while it runs never stops the ones that stay registered."""
    n = 3
    raw = H.flip('raw')
    op = H.choice('op', ('load', 'update', 'set'))
    actor = H.choice('actor', tuple(range(n)))
    act = H.choice('act', ('remove', 'remove all others', 'clear', 'clear other kind', 'add', 'add other kind', 'replace', 'bind copy'))
    target = H.choice('target', tuple(range(n))) if act in ('remove', 'replace') else None
    fail = H.choice('fail', (None,) + tuple(range(n)))
    log, live, gone = [], [False], []

    def validator(i, kind):
        def v(schema, value, context):
            log.append((kind, i))
            if live[0] and kind == raw and i == actor:
                live[0] = False
                change()
            if i == fail and kind == raw:
                raise ValueError('no %d' % i)
        return v
    vs = {k: [validator(i, k) for i in range(n)] for k in (True, False)}
    added = validator('added', raw), validator('added', not raw)

    def change():
        if act in ('remove', 'replace'):
            a.remove_validator(vs[raw][target], raw=raw)
            gone.append((raw, target))
            if act == 'replace':
                a.add_validator(added[0], raw=raw)
        elif act == 'remove all others':
            for i in range(n):
                if i != actor:
                    a.remove_validator(vs[raw][i], raw=raw)
                    gone.append((raw, i))
        elif act in ('clear', 'clear other kind'):
            kind = raw if act == 'clear' else not raw
            a.clear_validators(raw=kind)
            gone.extend((kind, i) for i in range(n))
        elif act == 'bind copy':
            b = a.copy()
            b.clear_validators()
        else:
            a.add_validator(added[0] if act == 'add' else added[1], raw=raw if act == 'add' else not raw)
    a = Pass(required=False)
    S = type(oblate.Schema)('S', (oblate.Schema,), {'a': a, '__module__': __name__})
    s = S({'a': 'before'})
    for k in (True, False):
        for v in vs[k]:
            a.add_validator(v, raw=k)
    live[0] = True
    value = H.value('value', NONNULL)
    f = {'load': (S, {'a': value}), 'update': (s.update, {'a': value}), 'set': (setattr, s, 'a', value)}[op]
    ok, r = H.attempt(*f)
    counts = {}
    for x in log:
        counts[x] = counts.get(x, 0) + 1
    for k in (True, False):
        for i in range(n):
            c = counts.get((k, i), 0)
            H.check(c <= 1 if (k, i) in gone else c == 1, 'every validator that stays registered runs once')
    H.check(all([c == 1 for x, c in counts.items()]), 'no validator runs twice')
    if fail is None:
        H.check(ok, 'accepted')
    elif (raw, fail) not in gone or (raw, fail) in counts:
        H.check(not ok and isinstance(r, oblate.ValidationError) and len(r.errors) == 1, 'the failure is reported')
        H.cover('rejected')
    # from then on, exactly the registered ones run
    left = [(k, i) for k in (True, False) for i in range(n) if (k, i) not in gone]
    if act in ('add', 'replace'):
        left.append((raw, 'added'))
    if act == 'add other kind':
        left.append((not raw, 'added'))
    log.clear()
    H.attempt(S, {'a': value})
    H.check(sorted(map(repr, log)) == sorted(map(repr, left)), 'exactly the registered validators run for the next load')
    H.cover(act)


def while_listing(H):
    """Validators removed or added while they are listed: every one that was registered is listed."""
    n = H.choice('n', (1, 2, 3, 4))
    kinds = [H.flip('raw%d' % i) for i in range(n)]
    which = H.choice('which', (None, True, False))
    act = H.choice('act', ('remove', 'clear', 'add', 'remove first'))
    a = Pass()
    vs = [(lambda i: lambda s, v, c: None)(i) for i in range(n)]
    for v, k in zip(vs, kinds):
        a.add_validator(v, raw=k)
    want = [v for v, k in zip(vs, kinds) if which is None or k == which]
    seen = []
    kw = {} if which is None else {'raw': which}
    for v in a.walk_validators(**kw):
        seen.append(v)
        if len(seen) > 2 * n:
            break
        if act == 'remove':
            a.remove_validator(v, raw=kinds[vs.index(v)])
        elif act == 'clear':
            a.clear_validators()
        elif act == 'remove first':
            a.remove_validator(want[0], raw=kinds[vs.index(want[0])])
        else:
            a.add_validator(lambda s, v, c: None, raw=kinds[vs.index(want[0])])
    H.check(len(seen) == len(want) and all([any([x is y for y in seen]) for x in want]), 'every validator that was registered is listed')
    if act == 'remove':
        left = list(a.walk_validators())
        rest = [v for v in vs if v not in want]
        H.check(len(left) == len(rest) and all([any([x is y for y in left]) for x in rest]), 'all of the kind are removed')
    H.cover(act)


OPS = tuple(o + r for o in ('load', 'update', 'set') for r in (' accepted', ' rejected'))
many.covers = OPS
dispatch.covers = errors_do_not_stop.covers = OPS + ('raw called', 'called')
registry.covers = ('cleared', 'removed', 'removed nothing')
two_fields.covers = ('load 0', 'load 1', 'load 2', 'update 1', 'update 2')
in_run.covers = ('rejected', 'remove', 'remove all others', 'clear', 'clear other kind', 'add', 'add other kind', 'replace', 'bind copy')
while_listing.covers = ('remove', 'clear', 'add', 'remove first')
shared.covers = ('accepted', 'rejected')
SCENARIOS = dict(dispatch=dispatch, errors_do_not_stop=errors_do_not_stop, registry=registry, two_fields=two_fields, shared=shared, many=many, in_run=in_run, while_listing=while_listing)

SCENARIOS.update(
    blank=model.run(('calls',), model.FIELD + model.DATA + model.USER + ('which',), (('update', 'set'),), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False, 'raws.a': 1, 'vals.a': 1}),
    deviations=model.run(('calls',), model.FIELD + model.DATA + model.USER + ('which',), (('none', 'update', 'set'),), (2, 3), model.OUTCOMES, base={'raws.a': 2, 'vals.a': 2}),
    rich=model.run(('calls',), model.FIELD + model.DATA + model.USER + ('typ', 'obj'), (('none', 'update'),), (2, 3), ('ok', 'value'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}, free=('load', 'val')),
)
