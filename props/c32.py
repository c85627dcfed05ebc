"""C32: operations never modify their inputs, other instances or the class."""
import typing
import oblate
import model
from oblate import fields, validate
from common import *

BOUNDS = ('schemas of every built-in field class, values of several kinds per field; construction, update, assignment and dump, succeeding and '
          'failing in any way; an operation repeated after 1 (thorough: 2) other operations on the same or another instance, of the same, a parent, '
          'child or other schema')
ASSUMPTIONS = ['user code is deterministic and does not itself modify its inputs']
TD = typing.TypedDict('TD', {'k': int})


def snap(x, depth=6):
    """The structure of an input, by identity of its leaves."""
    if isinstance(x, dict):
        return ('d', id(x), type(x), [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, list):
        return ('l', id(x), [snap(v) for v in x])
    if isinstance(x, tuple):
        return ('t', [snap(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ('s', id(x), sorted(map(repr, x)))
    return ('x', x)


def same_snap(H, a, b):
    if a[0] != b[0] or a[0] != 'x' and len(a) != len(b):
        return False
    if a[0] == 'x':
        return H.same(a[1], b[1])
    if a[0] == 'd':
        return (a[1], a[2]) == (b[1], b[2]) and len(a[3]) == len(b[3]) and H.And(*[
            H.And(H.same(p[0], q[0]), same_snap(H, p[1], q[1])) for p, q in zip(a[3], b[3])])
    if a[0] == 's':
        return a[1:] == b[1:]
    i = len(a) - 1
    if a[1] != b[1] and i == 2 or len(a[i]) != len(b[i]):
        return False
    return H.And(*[same_snap(H, p, q) for p, q in zip(a[i], b[i])])


class In(oblate.Schema):
    x = fields.Integer(load_key='kx')
    l = fields.List(int, required=False)


def candidates(H, n):
    """Fields with values for them, valid and not."""
    v = H.value('v', Spec(('int', 'str', 'none')))
    table = {
        'any': lambda: (fields.Any(), [v, {'p': [v]}]),
        'int': lambda: (fields.Integer(strict=False, validators=vs), v),
        'bool': lambda: (fields.Boolean(strict=False, true_values=words, false_values=['off', '0']), 'yes' if H.flip('word') else v),
        'object': lambda: (fields.Object(In, init_kwargs=kw), {'kx': v, 'l': [1]} if H.flip('l') else {'kx': 1, 'zz': [v]}),
        'instance': lambda: (fields.Object(In), In({'kx': 1, 'l': [1]})),
        'dict': lambda: (fields.Dict(str, int), {'a': 1, 'b': v}),
        'list': lambda: (fields.List(typing.Union[int, typing.List[int]]), [1, [2, v]]),
        'set': lambda: (fields.Set(int), {1, 2} if H.flip('good') else {1, 'z'}),
        'typed': lambda: (fields.TypedDict(TD), {'k': v} if H.flip('k') else {'k': 1, 'j': [1]}),
        'tuple': lambda: (fields.TypeExpr(typing.Tuple[int, typing.Dict[str, int]]), (1, {'a': v})),
        'sequence': lambda: (fields.TypeExpr(typing.Sequence[int]), [1, v]),
        'union': lambda: (fields.Union(int, list), [v]),
        'literal': lambda: (fields.Literal('a', 1), v),
        'extras': lambda: (fields.Any(extras=extras, default=dfl), [v]),
    }
    words, vs, kw, extras, dfl = ['on', 'yes'], [validate.Range(5), validate.Or(validate.Range(3), validate.Exclude(9))], {'ignore_extra': True}, {'e': [1]}, [1, 2]
    options = [words, vs, kw, extras, dfl]
    kind = H.choice('field', tuple(table))
    f, val = table[kind]()
    return f, val, options


def inputs(H):
    """The data, its contents, the selections and the options are left alone."""
    f, val, options = candidates(H, 1)

    class S(oblate.Schema):
        a = f
        b = fields.Any(required=False)

        class Config(oblate.SchemaConfig):
            ignore_extra = H.flip('ignore')
    S.a.required = False
    how = H.choice('how', ('construct', 'update', 'set', 'dump'))
    data = {'b': 5, 'a': val}
    if H.flip('unknown'):
        data['zz'] = [1]
    state = {'st': [1]}
    before = [snap(x) for x in (data, options, state)]
    vb = snap(val)
    if how == 'construct':
        ok, r = H.attempt(S, data, state=state)
        s = r if ok else None
    elif how == 'update':
        s = S({})
        ok, r = H.attempt(s.update, data)
    elif how == 'set':
        s = S({})
        ok, r = H.attempt(setattr, s, 'a', val)
    else:
        ok, s = H.attempt(S, data, state=state)
        if not ok:
            return
        sel = H.choice('sel', (list, set))(['a', 'zz'] if H.flip('sel a') else ['b'])
        sb = snap(sel)
        ok, r = H.attempt(s.dump, **{'include' if H.flip('inc') else 'exclude': sel})
        H.check(same_snap(H, snap(sel), sb), 'the selection is not modified')
        if ok:
            # the dumped dictionary is the caller's
            r.clear()
            r['junk'] = 1
            ok2, r2 = H.attempt(s.dump)
            H.check(ok2 and 'junk' not in r2, 'changing the dumped dictionary changes nothing')
    for x, b, what in zip((data, options, state), before, ('data', 'options', 'state')):
        H.check(same_snap(H, snap(x), b), 'the %s passed in is not modified' % what)
    H.check(same_snap(H, snap(val), vb), 'nor the value')
    H.cover('ok' if ok else 'failed')
    if s is not None and how != 'set':
        # changing the mapping afterwards does not change the schema
        keep = s.get_value_for('b', UNSET)
        data['b'] = 6
        data.pop('a')
        H.check(same_value(H, s.get_value_for('b', UNSET), keep), 'the schema does not hang on the mapping')


OPS = ('construct', 'construct bad', 'update', 'update bad', 'set', 'set bad', 'dump', 'dump bad', 'copy', 'unknown', 'frozen')


def perform(H, w, cls, s, how, op):
    """One operation with the outcomes named op; a comparable description of what happened."""
    w.begin(op)
    if how in ('construct', 'construct bad', 'unknown'):
        es = {'ka': w.H.value('v.' + op, INPUT)}
        if how == 'construct bad':
            es['b'] = None
        if how == 'unknown':
            es['zz'] = 1
        ok, r = w.attempt(cls, es, ignore_extra=False)
        s = r if ok else None
    elif how in ('update', 'update bad', 'frozen'):
        es = {'ka': w.H.value('v.' + op, INPUT)}
        if how == 'update bad':
            es['b'] = None
        if how == 'frozen':
            es['z'] = 1
        ok, r = w.attempt(s.update, es)
    elif how == 'set':
        ok, r = w.attempt(setattr, s, 'a', w.H.value('v.' + op, INPUT))
    elif how == 'set bad':
        ok, r = w.attempt(setattr, s, 'b', None)
    elif how == 'copy':
        ok, r = True, s.copy()
    else:
        cls.a.douts = ('value',) if how == 'dump bad' else ('ok',)
        ok, r = w.attempt(s.dump)
        cls.a.douts = ('ok',)
    out = [('ok', ok)]
    if not ok:
        out.append(('type', type(r).__name__))
        if isinstance(r, oblate.ValidationError):
            out.append(('raw', sorted((k, list(map(str, v))) for k, v in r.raw().items())))
            out.append(('text', str(r)))
    elif how.startswith('dump'):
        out += sorted(('dump.' + k, v) for k, v in r.items())
    values = state_of(s, 'abz') if s is not None else {}
    out.append(('calls', [(x[0], x[1]) for x in w.log]))
    return out, values


def same_out(H, a, b):
    if len(a) != len(b) or [x[0] for x in a] != [x[0] for x in b]:
        return False
    return H.And(*[H.eq(x[1], y[1]) for x, y in zip(a, b)])


def repeat(H):
    """The same operation on an identical instance gives the same result, whatever happened in between."""
    w = World(H, ('ok', 'value'), ('ok', 'value'))
    descr = [F('a', 'ka', raws=('ra',), vals=('va',), none=H.flip('none')), F('b', required=False, outs=('ok',)), F('z', required=False, frozen=True, outs=('ok',)),
             F('d', 'kd', default=3, outs=('ok',), douts=('ok',))]
    base = make_schema(w, descr, name='Base')
    w.douts = ('ok',)
    base.b.douts = base.z.douts = base.a.douts = ('ok',)

    class Sub(base):
        extra = Pass(required=False)
    rel = H.choice('class', ('same', 'parent', 'child'))
    cls = Sub if rel == 'parent' else base
    other_cls = base if rel in ('same', 'parent') else Sub

    def fresh(c):
        w.begin('fresh')
        saved = base.a.outs
        base.a.outs = ('ok',)
        vouts, w.vouts = w.vouts, ('ok',)
        s = c({'ka': 1, 'b': 2})
        base.a.outs, w.vouts = saved, vouts
        return s
    # the validators must succeed while the instances are made
    base.a.clear_validators()
    one, two, other = fresh(cls), fresh(cls), fresh(other_cls)
    base.a.add_validator(w.validator('va'))
    base.a.add_validator(w.validator('ra', ('ok', 'value')), raw=True)
    how = H.choice('how', OPS)
    o1, v1 = perform(H, w, cls, one, how, 'op')
    before = state_of(two, 'abz')
    for i in H.bound(('x',), ('x', 'y')):
        between = H.choice('between.' + i, ('none',) + OPS)
        if between != 'none':
            who, c = (one, cls) if H.flip('who.' + i) else (other, other_cls)
            outs, w.outs = w.outs, ('ok', 'value')
            perform(H, w, c, who, between, i)
            H.cover('between')
    H.check(same_state(H, state_of(two, 'abz'), before), 'other instances are not affected')
    o2, v2 = perform(H, w, cls, two, how, 'op')
    H.check(same_out(H, o1, o2), 'the same result and errors')
    H.check(same_state(H, v1, v2), 'the same values')
    H.cover('ok' if o1[0][1] else 'failed')


def repeat_builtin(H):
    """The same for the built-in fields and validators."""
    f, val, options = candidates(H, 1)

    class S(oblate.Schema):
        a = f
    vals = [val, H.value('w', Spec(('int', 'str', 'bool'))), None, 1, True, 1.0, {'k': 1}, [1], {'kx': 1}]
    between = vals[H.choice('between', tuple(range(1, len(vals))))]

    def run(v):
        ok, r = H.attempt(S, {'a': v})
        if ok:
            return ok, r.a, r.dump()['a'] if not isinstance(r.a, oblate.Schema) else None
        H.check(isinstance(r, oblate.ValidationError), 'a validation error')
        return ok, str(r), None
    ok1, a1, d1 = run(val)
    run(between)
    ok2, a2, d2 = run(val)
    H.check(ok1 == ok2, 'accepted again or rejected again')
    if isinstance(a1, oblate.Schema):
        H.check(type(a2) is type(a1) and H.eq(a1.dump(), a2.dump()), 'with the same result')
        H.check(a1 is a2 if a1 is val else a1 is not a2, 'not shared unless it was given')
    else:
        H.check(type(a1) is type(a2) and H.eq(a1, a2) and H.eq(d1, d2), 'with the same result')
    H.cover('ok' if ok1 else 'failed')


def repeat_fresh(H):
    """Using a field before makes no difference: the same values give the same as with a field that was never used."""
    f, val, options = candidates(H, 1)
    g, val2, _ = candidates(H, 1)
    vals = [H.value('w', Spec(('int', 'str', 'bool'))), None, 1.5, 'y', {'k': 1}, [1], {'kx': 'y'}]
    before = vals[H.choice('before', tuple(range(len(vals))))]

    def made(name, field):
        return type(oblate.Schema)(name, (oblate.Schema,), {'a': field, '__module__': __name__})
    S, T = made('S', f), made('S', g)
    ok, s = H.attempt(S, {'a': before})
    if ok and H.flip('dump'):
        H.attempt(s.dump)

    def run(cls, v):
        ok, r = H.attempt(cls, {'a': v})
        if ok:
            return ok, r.a, r.dump()['a']
        H.check(isinstance(r, oblate.ValidationError), 'a validation error')
        return ok, str(r), r.raw()
    ok1, a1, d1 = run(S, val)
    ok2, a2, d2 = run(T, val2)
    H.check(ok1 == ok2, 'accepted or rejected alike')
    if not isinstance(a1, oblate.Schema):
        H.check(type(a1) is type(a2) and H.eq(a1, a2), 'with the same value or text')
    H.check(H.eq(d1, d2), 'with the same dump or errors')
    H.cover('ok' if ok1 else 'failed')


STEPS = ('add', 'add raw', 'remove', 'clear', 'copy add', 'copy clear', 'construct', 'bad construct', 'update', 'dump', 'copy schema', 'bind copy', 'walk')


def options(H):
    """What a field was declared with - lists, dictionaries, tuples - is never modified by using or editing the field."""
    def v(schema, value, context):
        assert value != 13, 'unlucky'
        return [value]

    def r(schema, value, context):
        context.state['seen'] = value
    r.__validator_is_raw__ = True
    vs = [v, r] if H.choice('validators', ('two', 'one')) == 'two' else [v]
    extras, kwargs, true, false, default, state = {'x': [1]}, {'ignore_extra': True, 'state': {'q': 1}}, ['on'], ['off'], {'k': [1]}, {'q': 1}
    kwargs['state'] = state
    kind = H.choice('kind', ('any', 'object', 'boolean', 'dict'))
    kw = dict(validators=vs, extras=extras, load_key='ka')
    if kind == 'object':
        f = fields.Object(In, init_kwargs=kwargs, **kw)
    elif kind == 'boolean':
        f = fields.Boolean(strict=False, true_values=true, false_values=false, **kw)
    elif kind == 'dict':
        f = fields.Dict(str, list, default=default, **kw)
    else:
        f = fields.Any(default=default, **kw)

    class S(oblate.Schema):
        a = f
    x = H.value('x', Spec(('int', 'str', 'none', 'bool', 'dict'), elem=Spec(('int', 'str')), key=Spec(('str',), strings=('kx', 'on')), maxlen=1))
    good = {'object': {'kx': 1, 'more': 2}, 'boolean': 'on', 'dict': {'k': [2]}, 'any': 5}[kind]
    given = [('validators', vs, snap(vs)), ('extras', extras, snap(extras)), ('arguments', kwargs, snap(kwargs)), ('true values', true, snap(true)), ('false values', false, snap(false)),
             ('default', default, snap(default)), ('state', state, snap(state)), ('value', good, snap(good))]
    ok, s = H.attempt(S, {'ka': good})
    H.check(ok, 'valid')
    for n in range(H.bound(2, 3)):
        step = H.choice('step%d' % n, STEPS)
        g = f
        if step == 'copy add':
            g = f.copy()
            g.add_validator(r, raw=True)
        elif step == 'copy clear':
            f.copy().clear_validators()
        elif step == 'bind copy':
            T = type(oblate.Schema)('T', (S,), {'b': f.copy(), '__module__': __name__})
            H.attempt(T, {'ka': x, 'kb': x})
        elif step == 'add':
            f.add_validator(v)
        elif step == 'add raw':
            f.add_validator(r, raw=True)
        elif step == 'remove':
            f.remove_validator(v)
        elif step == 'clear':
            f.clear_validators()
        elif step == 'construct':
            H.attempt(S, {'ka': x})
        elif step == 'bad construct':
            H.attempt(S, {'ka': 13, 'zz': 1})
        elif step == 'update':
            H.attempt(s.update, {'ka': x})
        elif step == 'dump':
            H.attempt(s.dump)
        elif step == 'copy schema':
            s = s.copy()
        elif step == 'walk':
            list(f.walk_validators(raw=True))
            H.attempt(S, {})
        for what, obj, was in given:
            H.check(same_snap(H, snap(obj), was), 'the %s given are not modified' % what)
    H.cover('ok')


def order(H):
    """Operations leave no trace in the order of things: identical later operations report and dump in the same order."""
    w = World(H, ('ok',))
    kd, ke = H.value('d', Spec(('none', 'int', 'str'))), H.value('e', Spec(('none', 'int', 'str')))

    class Base(oblate.Schema):
        a = fields.Integer(load_key='ka', required=False)
        b = fields.Integer(required=False)

    class S(Base):
        c = fields.Integer(required=False, dump_key='dc')
        d = fields.Integer(load_key='kd')
        e = fields.Integer()

    class Child(S):
        f = fields.Integer(required=False)
    keys = {'a': 'ka', 'd': 'kd'}

    def report():
        """What later operations say, in order."""
        out = []
        for cls in (S, Base, Child):
            good = {keys.get(n, n): i for i, n in enumerate('abcde') if n in 'ab' or cls is not Base}
            s = cls(good)
            out.append(('dump', list(s.dump().items())))
            for op in (lambda: cls({}), lambda: cls(dict.fromkeys(list(good)[::-1], 'x')), lambda: s.update({'zz': 1, 'b': None, 'ka': 's'}), lambda: s.update({'zz': 1})):
                ok, r = H.attempt(op)
                out.append(('ok', ok))
                if not ok:
                    out.append(('raw', [(k, list(map(str, v))) for k, v in r.raw().items()]))
                    out.append(('text', str(r)))
                    out.append(('errors', [(e.key, e.field and e.field.name, str(e.message)) for e in r.errors]))
        return out
    before = report()
    cls = H.choice('class', (Base, S, Child))
    for i in range(H.bound(1, 2)):
        how = H.choice('how%d' % i, ('construct', 'update', 'dump', 'set', 'copy', 'none'))
        if how == 'none':
            continue
        names = 'ab' if cls is Base else 'abcde'
        at = H.choice('at%d' % i, tuple(range(len(names))))
        names = names[at:] + names[:at]
        data = {keys.get(n, n): {'d': kd, 'e': ke}.get(n, 1) for n in names}
        full = cls({keys.get(n, n): 1 for n in names})
        if how == 'construct':
            H.attempt(cls, data)
        elif how == 'update':
            H.attempt(full.update, data)
        elif how == 'dump':
            H.attempt(full.dump, include=list(names[:2]))
            H.attempt(full.dump, exclude=list(names[1:3]))
        elif how == 'set':
            for n in names:
                H.attempt(setattr, full, n, data[keys.get(n, n)])
        else:
            H.attempt(full.copy().update, data)
        H.cover('ok')
    after = report()
    H.check(len(before) == len(after) and all(H.eq(x, y) for x, y in zip(before, after)), 'later operations are the same, in the same order')


order.covers = ('ok',)
inputs.covers = ('ok', 'failed')
repeat.covers = ('ok', 'failed', 'between')
repeat_builtin.covers = ('ok', 'failed')
repeat_fresh.covers = ('ok', 'failed')
options.covers = ('ok',)
SCENARIOS = dict(inputs=inputs, repeat=repeat, repeat_builtin=repeat_builtin, repeat_fresh=repeat_fresh, options=options, order=order)

SCENARIOS.update(
    deviations=model.run(('inputs', 'isolation', 'values', 'update', 'errors'), model.FIELD + model.DATA + model.USER + ('state',), (('construct', 'update'), ('construct', 'update')), (2, 3), ('ok', 'value', 'foreign')),
    sparse=model.run(('inputs', 'isolation', 'values', 'update', 'errors'), model.FIELD + model.DATA, (('none', 'update'),), (1, 2), ('ok', 'value'), base={'required.a': False}, free=('has.a@init', 'has.b@init', 'has.c@init', 'unknown@init', 'ignore_arg@init', 'data@init')),
    deviations_dump=model.run(('inputs', 'dump'), model.FIELD + ('has', 'value', 'dump', 'sametext', 'select', 'container', 'dumpkeys'), (('dump', 'update'), 'dump'), (2, 3), ('ok', 'value'), free=('select@op2', 'container@op2')),
    extras=model.run(('inputs', 'isolation', 'values', 'update', 'errors', 'construct'), ('unknown', 'ignore_arg', 'cfg_ignore', 'has', 'value', 'load', 'required', 'none'), (('construct', 'update'), ('construct', 'update')), (1, 2), ('ok', 'value'), base={'unknown': 'last'}, free=('ignore_arg', 'cfg_ignore')),
)
