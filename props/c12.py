"""C12: operations leave no trace in the ambient context and do not interfere, whatever fails and however threads interleave."""
import oblate
from oblate import fields, utils, validate
from common import *
from sx import sched

POINTS = True       # the code under test is loaded with a scheduling point before every statement

BOUNDS = ('ambient: every outcome (success, validation errors, foreign exceptions, failing mappings) of construction, update, assignment and '
          'dump, at the top level and within a deserializer, validator or serializer of an enclosing operation, and sequences of two. '
          'threads: two operations of two threads on one class (different instances, or two dumps of one) with preemption of the first at '
          'any one statement of the library, then the rest; thorough: two preemptions (first at any statement, second at any statement of the other thread)')
ASSUMPTIONS = ['a thread switch happens between two statements, not within one', 'threads start with an empty context',
               'the two threads do not modify the same instance']

NAMES = ('current_schema', 'current_field_key', 'current_context')


def ambient():
    """What user code can see of the ambient state."""
    out = []
    for n in NAMES:
        v = getattr(utils, n, None)
        if v is not None:
            try:
                out.append(v.get())
            except LookupError:
                out.append(UNSET)
    return out


def probe():
    """What an error raised right now is attributed to."""
    try:
        e = oblate.FieldError('probe')
    except LookupError:
        return [UNSET] + ambient()
    return [e.key, e.schema, e.field, e.context] + ambient()


def unchanged(H, a, b):
    return H.And(len(a) == len(b), *[x is y or H.same(x, y) for x, y in zip(a, b)])


class Odd(dict):
    """A mapping whose iteration fails at the end."""

    def items(self):
        for x in super().items():
            yield x
        raise Foreign('iteration')


OPS = ('construct', 'update', 'set', 'dump', 'dump selected', 'iteration', 'not a mapping')


def inner_class(w):
    """A class and an instance of it."""
    vouts = ['ok']
    descr = [F('p', 'kp', raws=('rp',), vals=('vp',), vouts=vouts), F('q', required=False, none=True), F('r', required=False, outs=('ok',), douts=('ok',))]
    cls = make_schema(w, descr, 'Inner')
    s = construct_quietly(w.H, w, cls, descr, 'pr')
    vouts[:] = w.vouts
    return descr, cls, s


def perform(H, w, descr, cls, s, what, op):
    """One operation on its own class; its kind of end."""
    old, log = w.op, w.log
    w.begin(op)
    try:
        if what == 'construct':
            data = {'kp': H.value(op + '.p', INPUT), 'zz': 1} if H.flip(op + '.unknown') else {'kp': H.value(op + '.p', INPUT), 'r': 2} if H.flip(op + '.full') else {}
            ok, r = w.attempt(cls, data)
        elif what == 'update':
            ok, r = w.attempt(s.update, {'kp': H.value(op + '.p', INPUT), 'r': 2})
        elif what == 'set':
            ok, r = w.attempt(setattr, s, 'p', H.value(op + '.p', INPUT))
        elif what == 'dump':
            ok, r = w.attempt(s.dump)
        elif what == 'dump selected':
            ok, r = w.attempt(s.dump, include=['p'])
        elif what == 'iteration':
            ok, r = w.attempt(cls if H.flip(op + '.init') else s.update, Odd(r=1))
        else:
            ok, r = w.attempt(cls, [1])
    finally:
        w.op, w.log = old, log
    return 'ok' if ok else type(r).__name__


def top(H):
    """At the top level: nothing is left behind, and the next operation is not affected."""
    w = World(H, ('ok', 'value') + tuple(EXC), ('ok', 'field') + tuple(EXC), ('ok', 'assert') + tuple(EXC))
    descr, cls, s = inner_class(w)
    before = probe()
    what = H.choice('what', OPS)
    how = perform(H, w, descr, cls, s, what, 'first')
    H.check(unchanged(H, before, probe()), 'the ambient state is as it was')
    H.cover('top ' + how)
    # the errors of the next operation are its own
    w.begin('next')
    second = [F('x', 'kx', outs=('ok',)), F('y', 'p', outs=('value',))]
    cls2 = make_schema(w, second, 'Second')
    ok, e = w.attempt(cls2, {'zz': 1, 'p': 2})
    H.check(not ok and isinstance(e, oblate.ValidationError), 'the next operation fails as always')
    got = {x.key: x for x in e.errors}
    H.check(sorted(got) == ['kx', 'p', 'zz'] and len(e.errors) == 3, 'with its own errors')
    H.check(got['zz'].context is None and got['zz'].field is None, 'no value belongs to an unknown key')
    H.check(got['kx'].context is None and got['kx'].field is cls2.x, 'no value belongs to a missing field')
    H.check(got['p'].context is not None and got['p'].context.field is cls2.y, 'the value of the failing field')
    H.check(all(x.schema is e.schema and type(x.schema) is cls2 for x in e.errors), 'the schema')


def nested(H):
    """Within user code of an enclosing operation: what the enclosing one reports afterwards is unaffected."""
    where = H.choice('where', ('load', 'raw', 'val', 'dump'))
    w = World(H, ('ok', 'value', 'foreign', 'interrupt'), ('ok', 'value', 'base', 'exit'), ('ok', 'value', 'base', 'key'))
    outer = [F('a', 'ka', raws=('ra',), vals=('va',), outs=('ok', 'value'), vouts=('ok',), douts=('ok', 'value')),
             F('b', 'kb', outs=('value',), vouts=('ok',), douts=('value',))]
    ocls = make_schema(w, outer, 'Outer')
    descr, cls, s = inner_class(w)
    what = H.choice('what', OPS)
    seen = []

    def hook(*a):
        before = probe()
        how = perform(H, w, descr, cls, s, what, 'inner')
        H.check(unchanged(H, before, probe()), 'the enclosing operation finds what it left')
        H.cover('nested ' + how)
        seen.append(before)
    if where == 'dump':
        o = construct_quietly(H, w, ocls, outer, 'ab')
        w.hooks['dump', 'a'] = hook
        w.begin('outer')
        ok, e = w.attempt(o.dump)
        H.check(not ok and len(seen) == 1, 'fails for the second field')
    else:
        w.hooks[{'load': ('load', 'a'), 'raw': ('val', 'ra'), 'val': ('val', 'va')}[where]] = hook
        w.begin('outer')
        if H.flip('outer update'):
            o = None
            hooks, w.hooks = w.hooks, {}
            o = construct_quietly(H, w, ocls, outer, 'ab')
            w.hooks = hooks
            w.begin('outer')
            ok, e = w.attempt(o.update, {'ka': 1, 'zz': 2, 'kb': 3})
        else:
            ok, e = w.attempt(ocls, {'ka': 1, 'zz': 2, 'kb': 3})
        H.check(not ok, 'fails for the unknown key')
    H.check(isinstance(e, oblate.ValidationError) and type(e.schema) is ocls, 'a validation error of the outer schema')
    for x in e.errors:
        H.check(x.schema is e.schema, 'of the outer schema')
        f = {'ka': ocls.a, 'kb': ocls.b, 'zz': None}.get(x.key, UNSET)
        H.check(x.field is f, 'of the outer field')
        if f is None:
            H.check(x.context is None, 'no value')
        else:
            H.check(x.context is not None and x.context.field is f, 'the value of the field')
    for b in seen:
        H.check(b[0] == 'ka' and b[1] is e.schema and b[2] is ocls.a and b[3].field is ocls.a, 'the enclosing operation is visible to its user code')


# -- threads ---------------------------------------------------------------------------------------------------------------

def scalar(v):
    """Values in reports: containers by type."""
    return v if v is None or isinstance(v, (int, str)) else type(v).__name__


def report(e):
    """Everything an error tells, in comparable form; `own` stands for the instance of the operation."""
    out = []
    for x in e.errors:
        f = x.field
        out.append((x.key, None if f is None else getattr(f, 'ident', None) or type(f).__name__, x.schema is e.schema,
                    None if x.context is None else (x.context.field is f, x.context.schema is x.schema, scalar(x.context.value)), x.message if isinstance(x.message, str) else None))
    return sorted(out, key=repr)


def nested_reports(e):
    out = []
    for x in e.errors:
        if isinstance(x.message, dict):
            for k in sorted(x.message):
                for y in x.message[k]:
                    out.append((x.key, k, y.key, type(y.schema).__name__, y.schema is not e.schema, y.message if isinstance(y.message, str) else None))
    return out


class Task:
    """One operation of one thread; `go` is what the thread runs."""

    def __init__(self, H, w, ident, cls, descr, what, s, data):
        self.H, self.w, self.ident, self.cls, self.descr, self.what, self.s, self.data = H, w, ident, cls, descr, what, s, data

    def go(self):
        try:
            if self.what == 'construct':
                r = self.cls(self.data)
            elif self.what == 'update':
                self.s.update(self.data)
                r = self.s
            elif self.what == 'set':
                self.s.a = self.data['ka']
                r = self.s
            else:
                return 'dumped', self.s.dump()
        except oblate.ValidationError as e:
            return 'failed', report(e), nested_reports(e), type(e.schema).__name__, e.schema is self.s if self.s is not None else None
        except Foreign as e:
            return 'foreign', str(e)
        return 'done', [(f.name, r.get_value_for(f.name, UNSET)) for f in self.descr]


def same_payload(H, x, y):
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and H.And(*[H.same(p, q) for p, q in zip(x, y)])
    return same_value(H, x, y) or x == y


def agree(H, a, b):
    """Same kind of end, same errors, same values."""
    if type(a) is not type(b) or len(a) != len(b):
        return False
    if a[0] == 'done' and b[0] == 'done' and isinstance(a[1], list):
        return H.And(*[x[0] == y[0] and same_payload(H, x[1], y[1]) for x, y in zip(a[1], b[1])])
    if a[0] == 'dumped' and b[0] == 'dumped':
        return sorted(a[1]) == sorted(b[1]) and H.And(*[same_payload(H, a[1][k], b[1][k]) for k in a[1]])
    return a == b


class TField(HField):
    """Outcomes and results depend on the value, not on the operation in progress: threads share no operation name."""

    def value_load(self, value, context):
        sched.explicit()
        if value == 'bad':
            raise ValueError('load:' + self.ident)
        if value == 'code':
            raise oblate.FieldError('code:' + self.ident)
        sched.explicit()
        if context.field.ident != self.ident or context.value != value or context.schema.context.schema is not context.schema:
            raise ValueError('context')
        return [self.ident, value]

    def value_dump(self, value, context):
        if context.field.ident != self.ident or context.value is not value and context.value != value:
            raise ValueError('context')
        sched.explicit()
        v = value[1] if isinstance(value, list) else value
        if v == 'undumpable':
            raise oblate.FieldError('dump:' + self.ident)
        return v


def tvalidator(ident, bad):
    def check(schema, value, context):
        sched.explicit()
        if value == bad or isinstance(value, list) and value[1] == bad:
            raise ValueError('val:' + ident)
        sched.explicit()
        if context.schema is not schema or schema.context.schema is not schema:
            raise ValueError('context')
        if not (context.value == value or isinstance(value, list) and context.value == value[1]):
            raise ValueError('context')
    return check


VALUES = ('good', 'bad', 'code', 'rawbad', 'valbad', 'undumpable')


def tclass():
    """A class of two fields whose outcome depends on the value only."""
    tw = World(None)
    ns = {'__module__': __name__}
    descr = [F('a', 'ka'), F('b', 'kb', required=False)]
    for f in descr:
        kw = {} if f.required else {'required': False}
        ff = TField(tw, f.name, outs=('ok',), douts=('ok',), load_key=f.key, **kw)
        ff.add_validator(tvalidator('r' + f.name, 'rawbad'), raw=True)
        ff.add_validator(tvalidator('v' + f.name, 'valbad'))
        ns[f.name] = ff
    return descr, type(oblate.Schema)('T', (oblate.Schema,), ns)


def task(H, ident, cls, descr, whats, values, keys):
    """Chooses one operation; everything chosen has a fixed name so that it can be made again on another class."""
    what = H.choice(ident + '.what', whats)
    va, vb = H.str(ident + '.a', among=values), H.choice(ident + '.b', keys)
    data = {'ka': va}
    if vb == 'unknown':
        data['zz'] = va
    elif vb == 'none':
        data = {'ka': va, 'kb': None} if what == 'set' else {'kb': None}
    elif vb != 'absent':
        data['kb'] = vb
    s = None
    if what != 'construct':
        s = cls({'ka': 'old', 'kb': va} if what == 'dump' and (va == 'good' or va == 'undumpable') else {'ka': 'old'})
    return Task(H, None, ident, cls, descr, what, s, data)


def interleave(H, make, preemptions, only_explicit=False):
    """Runs the operations of two threads alone, then interleaved in every way, and compares."""
    def run(tasks, plan, only_explicit=only_explicit):
        return sched.Sched(only_explicit).run([t.go for t in tasks], plan)
    alone, counts = [], []
    for i in (0, 1):
        r, n = sched.Counter(only_explicit).run(make()[i].go)
        alone.append(r)
        counts.append(n)
    plan = [(H.choice('first switch', range(1, counts[0] + 1)), 1)]
    if preemptions > 1:
        k = H.choice('second switch', range(0, counts[1] + 1))
        if k:
            plan.append((k, 0))
            H.cover('two preemptions')
    tasks = make()
    got = sched.Sched(only_explicit).run([t.go for t in tasks], plan)
    for i in (0, 1):
        H.check(agree(H, got[i], alone[i]), 'thread %d: %r instead of %r' % (i, got[i], alone[i]))
        H.cover('thread ' + alone[i][0])


def threads(H):
    """Construction, update, assignment and dump against each other, one class, one preemption at any statement."""
    def make():
        descr, cls = tclass()
        return (task(H, 'one', cls, descr, ('construct', 'update', 'dump') , ('good', 'bad', 'valbad', 'undumpable'), ('absent', 'unknown')),
                task(H, 'two', cls, descr, ('construct', 'dump'), ('good', 'rawbad', 'undumpable'), ('absent', 'none')))
    interleave(H, make, 1)


def same_dump(H):
    """Two threads dump one schema."""
    def make():
        descr, cls = tclass()
        s = cls({'ka': H.str('va', among=('good', 'undumpable')), 'kb': H.str('vb', among=('good', 'undumpable'))})
        return (Task(H, None, 'one', cls, descr, 'dump', s, None), Task(H, None, 'two', cls, descr, 'dump', s, None))
    interleave(H, make, 1)


def callbacks(H):
    """Two preemptions, at calls of user code."""
    def make():
        descr, cls = tclass()
        return (task(H, 'one', cls, descr, ('construct', 'update', 'set', 'dump'), ('good', 'bad', 'code', 'undumpable'), ('good', 'unknown', 'valbad')),
                task(H, 'two', cls, descr, ('construct', 'update', 'set', 'dump'), ('good', 'rawbad', 'valbad'), ('bad', 'none')))
    interleave(H, make, 2, True)


def two_switches(H):
    """Two preemptions at any statement."""
    def make():
        descr, cls = tclass()
        return (task(H, 'one', cls, descr, ('construct', 'update'), ('good', 'code'), ('unknown',)),
                task(H, 'two', cls, descr, ('construct', 'dump'), ('valbad', 'good'), ('absent',)))
    interleave(H, make, 2)


two_switches.tier = 'thorough'

import typing


class TD(typing.TypedDict, total=False):
    x: int
    y: typing.List[str]


def sclass():
    """One class with the library's own fields, every validator and shared type expressions."""
    class In(oblate.Schema):
        n = fields.Integer(strict=False)
        m = fields.String(required=False)

    class T(oblate.Schema):
        obj = fields.Object(In, required=False)
        typ = fields.TypeExpr(typing.Union[typing.Dict[str, int], typing.List[int]], required=False)
        td = fields.TypedDict(TD, required=False)
        num = fields.Integer(required=False)
        num.add_validator(validate.Or(validate.Range(5), validate.Range(10, 20)))
        txt = fields.String(required=False)
        txt.add_validator(validate.Length(max=3))
        txt.add_validator(validate.Regex('a+'))
    return [F(n) for n in ('obj', 'typ', 'td', 'num', 'txt')], T


SAMPLES = {
    'obj': ({'n': 1}, {'n': 'x', 'zz': 1}, {}, 3),
    'typ': ([1, 2], {'a': 1}, ['a', 1], {'a': 'b'}),
    'td': ({'x': 1}, {'x': 'a', 'y': [1]}, {'z': 1}, 4),
    'num': (15, 7, 3, 'x'),
    'txt': ('aa', 'aaaa', 'b', 5),
}


class STask(Task):
    def go(self):
        try:
            if self.what == 'construct':
                r = self.cls(self.data)
            elif self.what == 'update':
                self.s.update(self.data)
                r = self.s
            else:
                return 'dumped', self.s.dump()
        except oblate.ValidationError as e:
            return 'failed', report(e), e.raw(), e.schema is self.s if self.s is not None else None
        return 'done', r.dump()


def builtin(H):
    """The library's own fields and validators, shared by two threads."""
    n1 = H.choice('field', tuple(SAMPLES))
    i1, i2 = H.choice('one.value', (0, 1, 2, 3)), H.choice('two.value', (0, 1, 2, 3) if H.thorough else (0, 1))
    what = H.choice('one.what', ('construct', 'update') if H.thorough else ('construct',))

    def make():
        descr, cls = sclass()
        return (STask(H, None, 'one', cls, descr, what, cls({}), {n1: SAMPLES[n1][i1]}),
                STask(H, None, 'two', cls, descr, 'construct', None, {n1: SAMPLES[n1][i2]}))
    interleave(H, make, 1)


top.covers = ['top ok', 'top ValidationError', 'top Foreign', 'top ForeignBase', 'top TypeError']
nested.covers = ['nested ok', 'nested ValidationError', 'nested Foreign', 'nested ForeignBase', 'nested TypeError']
threads.covers = ['thread failed', 'thread done', 'thread dumped']
callbacks.covers = ['two preemptions', 'thread failed', 'thread done', 'thread dumped']
same_dump.covers = ['thread failed', 'thread dumped']
builtin.covers = ['thread failed', 'thread done']
two_switches.covers = ['two preemptions']

SCENARIOS = dict(top=top, nested=nested, threads=threads, same_dump=same_dump, callbacks=callbacks, builtin=builtin, two_switches=two_switches)
