"""C25: Object fields load, pass through and reject exactly as documented."""
import collections.abc
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('Object fields in construction, update and assignment; values of every kind (instances of the class, subclasses, other schemas, '
          'dicts, other mappings, anything else); construction arguments state, ignore_extra and custom ones; nested errors to depth 4 '
          'with up to 2 fields per level, each failing in any way; chains of 7 (thorough: 12) levels failing at any one or two; user mappings')
ASSUMPTIONS = []


class Map(collections.abc.Mapping):
    """A mapping that is not a dict."""
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Code(fields.Object):
    def format_error(self, code, context):
        return 'code:%s' % (code,)


def load(H, cls, s, how, key, name, value, others=()):
    """Loads the value in one of the ways; (ok, result or error, schema)."""
    if how == 'construct':
        ok, r = H.attempt(cls, dict(((key, value),) + tuple(others)))
        return ok, r, r if ok else None
    if how == 'update':
        ok, r = H.attempt(s.update, dict(((key, value),) + tuple(others)))
    else:
        ok, r = H.attempt(setattr, s, name, value)
    return ok, r, s


KINDS = ('instance', 'subclass', 'copy', 'parent', 'other', 'class', 'dict', 'empty', 'map', 'bad dict', 'subclass dict', 'pairs', 'set', 'any')


def values(H):
    """What becomes of a value of each kind."""
    class Base(oblate.Schema):
        x = fields.Any()

    class In(Base):
        y = fields.Any(required=False)

    class Sub(In):
        z = fields.Any(required=False)

    class Other(oblate.Schema):
        x = fields.Any()

    class S(oblate.Schema):
        n = Code(In, load_key='kn', none=H.flip('none'), required=H.flip('required'))
        o = fields.Any(required=False)
    how = H.choice('how', ('construct', 'update', 'set'))
    old = In({'x': 'old'})
    s = S({'kn': old, 'o': 3})
    kind = H.choice('kind', KINDS)
    x = H.value('x', ANY)
    if kind in ('instance', 'subclass', 'parent', 'other'):
        H.assume(x is not None)
    if kind == 'instance':
        v = In({'x': x})
    elif kind == 'subclass':
        v = Sub({'x': x, 'z': 1})
    elif kind == 'copy':
        v = old.copy()
    elif kind == 'parent':
        v = Base({'x': x})
    elif kind == 'other':
        v = Other({'x': x})
    elif kind == 'class':
        v = In
    elif kind == 'dict':
        v = {'x': x}
    elif kind == 'empty':
        v = {}
    elif kind == 'map':
        v = Map({'x': x, 'y': 2})
    elif kind == 'bad dict':
        v = {'x': x, 'w': 1}
    elif kind == 'subclass dict':
        v = collections.OrderedDict([('y', 2), ('x', x)])
    elif kind == 'pairs':
        v = [('x', x)]
    elif kind == 'set':
        v = {'x'}
    else:
        v = H.value('v', Spec(('none', 'bool', 'int', 'float', 'str', 'bytes')))
    ok, r, t = load(H, S, s, how, 'kn', 'n', v)
    if kind in ('instance', 'subclass', 'copy'):
        H.check(ok and t.n is v, 'an instance is kept as it is')
        H.check(H.same(v.x, 'old' if kind == 'copy' else x), 'and is not changed')
        H.cover('kept')
    elif kind in ('dict', 'map', 'subclass dict'):
        H.check(ok if x is not None else not ok, 'a mapping with valid entries is accepted')
        if ok:
            n = t.n
            H.check(type(n) is In and n is not v and n is not old, 'it becomes a new instance')
            H.check(H.same(n.x, x), 'with the values of the mapping')
            H.check((n.get_value_for('y', 'unset') == 2) == (kind != 'dict'), 'all of them')
            H.check(n.context.schema is n and n.context.is_initialized(), 'properly constructed')
            H.cover('converted')
        else:
            H.check(isinstance(r, oblate.ValidationError) and list(r.raw()) == ['kn'], 'nested error')
            H.check(list(r.raw()['kn'][0]) == ['x'], 'of the failing field')
    elif kind == 'any' and v is None:
        H.check(ok == S.n.none, 'None is accepted when allowed')
        if ok:
            H.check(t.n is None, 'and stored')
            H.cover('none')
        else:
            H.check(r.raw() == {'kn': ['code:field.none_disallowed']}, 'disallowed None')
    elif kind in ('empty', 'bad dict'):
        H.check(not ok and isinstance(r, oblate.ValidationError), 'invalid nested data')
        raw = r.raw()
        H.check(list(raw) == ['kn'] and len(raw['kn']) == 1, 'one error for the field')
        inner = raw['kn'][0]
        H.check(isinstance(inner, dict), 'nested errors')
        H.check(sorted(inner) == (['x'] if kind == 'empty' else ['w', 'x'] if x is None else ['w']), 'under the inner keys')
        H.cover('nested')
    else:
        H.check(not ok and isinstance(r, oblate.ValidationError), 'everything else is rejected')
        H.check(r.raw() == {'kn': ['code:object.invalid_datatype']}, 'with the invalid datatype code')
        H.cover('rejected')
    H.check(old.x == 'old' and old.get_value_for('y', 'unset') == 'unset', 'the previous object is never modified')
    if how != 'construct':
        H.check(s.o == 3, 'other fields stay')
        if not ok:
            H.check(s.n is old, 'a failing load leaves the previous object')
    H.out('ok', ok)


def arguments(H):
    """Construction arguments are used for mappings, every time, and only for them."""
    given = H.choice('given', ('none', 'state', 'ignore', 'both', 'custom'))
    st = H.value('st', ANY)
    ig = H.flip('ig')
    cfg = H.flip('cfg')
    calls = []

    class In(oblate.Schema):
        x = fields.Any(required=False)

        def __init__(self, data, /, extra='unset', **kwargs):
            calls.append(extra)
            super().__init__(data, **kwargs)

        class Config(oblate.SchemaConfig):
            ignore_extra = cfg
            slotted = False
    kw = {}
    if given in ('state', 'both'):
        kw['state'] = st
    if given in ('ignore', 'both'):
        kw['ignore_extra'] = ig
    if given == 'custom':
        kw['extra'] = st
    before = dict(kw)

    class S(oblate.Schema):
        n = fields.Object(In, required=False) if given == 'none' and H.flip('absent') else fields.Object(In, init_kwargs=kw, required=False)
    s = None
    mine = In({'x': 1}, state='mine')

    class Sub(In):
        y = fields.Any(required=False)
    sub = Sub({'x': 1, 'y': 2}, state='mine')
    for op in ('one', 'two'):
        del calls[:]
        how = H.choice('how.' + op, ('construct',) if s is None else ('construct', 'update', 'set'))
        what = H.choice('what.' + op, ('plain', 'extra', 'instance', 'subclass'))
        v = mine if what == 'instance' else sub if what == 'subclass' else {'x': 1} if what == 'plain' else {'x': 1, 'zz': 2}
        prev = s.n if s is not None and s.get_value_for('n', None) is not None else None
        ok, r, t = load(H, S, s, how, 'n', 'n', v)
        ignoring = ig if given in ('ignore', 'both') else cfg
        H.check(ok == (what != 'extra' or ignoring), 'unknown inner keys are judged by the construction arguments')
        if ok:
            if v is mine or v is sub:
                H.check(t.n is v and v.context.state == 'mine' and calls == [], 'instances are not constructed again')
                H.check(v.x == 1 and (v is mine or v.y == 2), 'and keep their values')
            else:
                H.check(H.same(t.n.context.state, st) if 'state' in kw else t.n.context.state is None, 'the given state')
                H.check(len(calls) == 1, 'one construction')
                H.check(H.same(calls[0], st if given == 'custom' else 'unset'), 'custom arguments are passed on')
                H.check(t.n.x == 1, 'value')
            s = t
            H.cover('loaded')
        elif s is None:
            return
        elif how != 'construct':
            H.check(s.get_value_for('n', None) is prev, 'a failing load leaves the previous object')
        H.check(len(kw) == len(before) and all(H.same(kw[k], before[k]) for k in before), 'the arguments are not modified')


class Node:
    """Description of a nested schema."""

    def __init__(self, name, key, descr, child=None):
        self.name, self.key, self.descr, self.child = name, key, descr, child

    def build(self, w):
        ns = {}
        if self.child is not None:
            ns[self.child.name] = Code(self.child.build(w), required=False, load_key=self.child.key)
        # the nested field comes first in the class; its position in the data is chosen separately
        self.cls = make_schema(w, self.descr, name=self.name.upper(), **ns)
        return self.cls

    def expected(self, w, data, op):
        """(raw errors by key as lists, foreign); data is a list of pairs, the nested one holding such a list."""
        rest = [(k, v) for k, v in data if self.child is None or k != self.child.key]
        p = predict(w, self.descr, rest, op, False)
        foreign, out = p.foreign, {}
        for e in p.errors:
            if e[0] == 'u':
                out.setdefault(rest[e[1]][0], []).append('?')
            else:
                out.setdefault([f.key for f in self.descr if f.name == e[1]][0], []).append(e[2])
        for k, v in data:
            if self.child is not None and k == self.child.key:
                if isinstance(v, list):
                    inner, fo = self.child.expected(w, v, op)
                    if inner:
                        out.setdefault(k, []).append(inner)
                    foreign = foreign or fo
                elif v is None:
                    out.setdefault(k, []).append('code:field.none_disallowed')
                else:
                    out.setdefault(k, []).append('code:object.invalid_datatype')
        return out, foreign


def todict(pairs):
    return dict((k, todict(v) if isinstance(v, list) else v) for k, v in pairs)


def same_raw(H, raw, exp):
    if not isinstance(raw, dict) or sorted(raw) != sorted(exp):
        return False
    for k in exp:
        a, b = raw[k], exp[k]
        if len(a) != len(b):
            return False
        nested = [x for x in b if isinstance(x, dict)]
        got = [x for x in a if isinstance(x, dict)]
        if len(nested) != len(got) or nested and not same_raw(H, got[0], nested[0]):
            return False
        if sorted(x for x in a if isinstance(x, str) and '?' not in b) != sorted(x for x in b if isinstance(x, str) and x != '?'):
            return False
    return True


def errors(H):
    """Errors of every level are reported under the keys of every level; nothing partial is stored."""
    how = H.choice('how', ('construct', 'update', 'set'))
    outs = ('ok', 'value', 'foreign')
    w = World(H, outs, FAIL)
    depth = H.choice('depth', (1, 2, 3))
    leaf = Node('leaf', 'kleaf', [F('x', 'kx', vals=('vx',) if H.flip('vx') else ()), F('y', required=False, outs=('ok', 'value'))])
    node = leaf
    if depth >= 2:
        node = Node('mid', 'mid', [F('m', required=H.flip('m.req'), outs=('ok', 'value'))], node)
    if depth == 3:
        node = Node('upper', 'ku', [F('u', required=False, outs=('ok', 'value'))], node)
    top = Node('top', 'top', [F('t', 'kt', required=False, outs=('ok', 'value'))], node)
    cls = top.build(w)
    w.begin('init')
    old = None
    if how != 'construct':
        s = cls({})

    # the data
    lv = [('kx', 1)] if H.flip('x given') else []
    extra = H.choice('leaf', ('plain', 'y', 'unknown', 'wrong'))
    if extra == 'y':
        lv.insert(0, ('y', 2))
    if extra == 'unknown':
        lv.append(('x', 3))
    v = 5 if extra == 'wrong' else lv
    if depth >= 2:
        v = [('m', 4), ('kleaf', v)] if H.flip('m given') else [('kleaf', v)]
    if depth == 3:
        v = [('mid', v), ('u', 4)]
    data = [(node.key, v)]
    if how != 'set' and H.flip('t given'):
        data.insert(0, ('kt', 6))
        if H.flip('unknown'):
            data.append(('zz', 6))
    w.begin('op')
    exp, foreign = top.expected(w, data, 'op')
    plain = todict(data)
    if how == 'construct':
        ok, r = w.attempt(cls, plain)
    elif how == 'update':
        ok, r = w.attempt(s.update, plain)
    else:
        ok, r = w.attempt(setattr, s, node.name, plain[node.key])
    if foreign:
        H.check(not ok and isinstance(r, Foreign), 'foreign exceptions are let through')
        H.cover('foreign')
    elif exp:
        H.check(not ok and isinstance(r, oblate.ValidationError), 'a validation error')
        H.check(same_raw(H, r.raw(), exp), 'every error under the keys of its levels, nothing else')
        text = str(r)
        for k in exp:
            H.check(k in text, 'the text names the key')
        H.cover('invalid')
    else:
        H.check(ok, 'valid data')
        t = r if how == 'construct' else s
        n, d = t, data
        while node is not None:
            n, d = n.get_value_for(node.name), [x for k, x in d if k == node.key][0]
            H.check(type(n) is node.cls, 'an instance of the schema class')
            for f in node.descr:
                if any(k == f.key for k, _ in d):
                    H.check(H.same(n.get_value_for(f.name), w.result('load', f.name)), 'with the deserialized values')
            node = node.child
        H.cover('valid')
        return
    if how != 'construct':
        for f in (node.name, 't'):
            H.check(s.get_value_for(f, UNSET) is UNSET, 'nothing partial is stored')


def siblings(H):
    """Several nested fields, also of the same class: each failing one is reported on its own, the others do not suffer."""
    class In(oblate.Schema):
        x = fields.Integer(load_key='kx')

    class S(oblate.Schema):
        a = Code(In, load_key='ka')
        b = Code(In, required=False)
        c = Code(In, load_key='kc', required=False, default=None)

        @oblate.validate.field(b)
        def check_b(self, value, context):
            seen.append((value, context.field is S.b))
            if bad:
                raise ValueError('vb')
    seen, bad = [], H.flip('bad')
    vs = {}
    for k in ('ka', 'b', 'kc'):
        if k == 'ka' or H.flip('has.' + k):
            vs[k] = {'kx': H.value('v.' + k, Spec(('int', 'str')))}
    keys = list(vs)
    if H.flip('reverse'):
        vs = dict((k, vs[k]) for k in reversed(keys))
    ok, r = H.attempt(S, vs)
    exp = {}
    for k in keys:
        if H.kind(vs[k]['kx']) == 'str':
            exp[k] = 1
    bv = 'b' in vs and 'b' not in exp
    H.check(len(seen) == bv, 'validators run for loaded objects only')
    if bv and bad:
        exp['b'] = 2
    H.check(ok == (not exp), 'valid exactly when every nested mapping is')
    if not ok:
        raw = r.raw()
        H.check(sorted(raw) == sorted(exp), 'every failing nested field, only those')
        for k in raw:
            if exp[k] == 1:
                H.check(len(raw[k]) == 1 and list(raw[k][0]) == ['kx'] and len(raw[k][0]['kx']) == 1, 'with its own errors')
            else:
                H.check(raw[k] == ['vb'], 'the error of the validator')
        H.cover('invalid')
    else:
        ns = {'ka': 'a', 'b': 'b', 'kc': 'c'}
        objs = [r.get_value_for(k) for k in keys]
        for k, o in zip(keys, objs):
            H.check(type(o) is In and H.same(o.x, vs[k]['kx']), 'each its own value')
        H.check(len(set(map(id, objs))) == len(objs), 'distinct objects')
        if bv:
            H.check(seen[0][0] is r.b and seen[0][1], 'the validator gets the instance')
        H.cover('valid')


def chain(H):
    """Deep nesting: failures at one or two levels, on the way in, at an update and on the way out."""
    w = World(H)
    n = H.bound(7, 12)
    one = H.choice('one', tuple(range(n)))
    two = H.choice('two', (None,) + tuple(range(n)))
    outs = ('ok', 'value', 'field')

    class Leaf(fields.Field):
        def __init__(self, level, **k):
            self.level = level
            super().__init__(**k)

        def fail(self, what):
            for n, at in (('one', one), ('two', two)):
                if at == self.level:
                    w.fail(w.outcome(what, n, outs), '%s%d' % (what, self.level))

        def value_load(self, value, context):
            if bad_in:
                self.fail('in')
            return value

        def value_dump(self, value, context):
            if not bad_in:
                self.fail('out')
            return value
    bad_in = H.flip('in')
    cls = None
    for i in reversed(range(n)):
        ns = {'__module__': __name__, 'f': Leaf(i)}
        if cls is not None:
            ns['n'] = fields.Object(cls, load_key='m%d' % i, dump_key='d%d' % i)
        cls = type(oblate.Schema)('K%d' % i, (oblate.Schema,), ns)
    data = None
    for i in reversed(range(n)):
        d = {'f': i}
        if data is not None:
            d['m%d' % i] = data
        data = d

    def expected(what, key):
        def level(i):
            e = {}
            ls = [what + str(i) for m, at in (('one', one), ('two', two)) if at == i and w.outcome(what, m, outs) != 'ok'][:1]
            if ls:
                e['f'] = ls
            if i + 1 < n:
                sub = level(i + 1)
                if sub:
                    e[key % i] = [sub]
            return e
        return level(0)
    op = H.choice('op', ('construct', 'update', 'set'))
    if op == 'construct':
        ok, r = w.attempt(cls, data)
    else:
        w0 = bad_in
        bad_in = False
        r = cls(data)
        bad_in = w0
        ok, x = w.attempt(r.update, {'m0': data['m0']}) if op == 'update' else w.attempt(setattr, r, 'n', data['m0'])
        if not ok:
            r = x
    exp = expected('in', 'm%d') if bad_in else {}
    if op != 'construct':
        exp.pop('f', None)
    if exp:
        H.check(not ok and isinstance(r, oblate.ValidationError), 'a failure at any level fails the whole')
        H.check(r.raw() == exp, 'and is reported at its place in the nested report')
        H.cover('invalid')
        return
    H.check(ok, 'no failure, no error')
    cur, d = r, data
    for i in range(n):
        H.check(cur.f == i, 'every level holds its value')
        cur = cur.n if i + 1 < n else None
    if not bad_in:
        ok, x = w.attempt(r.dump)
        exp = expected('out', 'm%d')
        if exp:
            H.check(not ok and isinstance(x, oblate.ValidationError) and x.raw() == exp, 'dump failures are reported at their place')
            H.cover('dump failed')
            return
        H.check(ok, 'dumped')
        for i in range(n):
            H.check(x['f'] == i and sorted(x) == (['d%d' % i, 'f'] if i + 1 < n else ['f']), 'every level dumps its values')
            x = x.get('d%d' % i)
    H.cover('valid')


def replaced(H):
    """An update replaces the instance: nothing of the old one is left, whatever its fields are."""
    class In(oblate.Schema):
        x = fields.Any(required=False, none=True)
        k = fields.Any(required=False, none=True, frozen=H.flip('frozen'), load_key='kk')
        d = fields.Any(default=7, none=True)
        n = fields.Any(required=False, none=True, dump_key='nn')
    state = {'tag': 1}
    kw = {} if H.flip('plain') else {'init_kwargs': dict(state=state)}

    class S(oblate.Schema):
        i = fields.Object(In, none=True, **kw)
    load = {'x': 'x', 'k': 'kk', 'd': 'd', 'n': 'n'}
    old = {load[f]: 'old ' + f for f in load if H.flip('old.' + f)}
    new = {load[f]: H.value('new.' + f, INPUT) for f in load if H.flip('new.' + f)}
    s = S({'i': old})
    first = s.i
    how = H.choice('how', ('update', 'set', 'none first', 'twice'))
    if how == 'none first':
        s.update({'i': None})
    if how == 'twice':
        s.update({'i': {'x': 'between', 'kk': 'between'}})
    ok, r = H.attempt(setattr, s, 'i', new) if how == 'set' else H.attempt(s.update, {'i': new})
    H.check(ok, 'accepted')
    H.check(type(s.i) is In and s.i is not first, 'a new instance')
    for f in load:
        v = s.i.get_value_for(f, UNSET)
        if load[f] in new:
            H.check(H.same(v, new[load[f]]), 'holds what was given')
        else:
            H.check(v is UNSET if f != 'd' else v == 7, 'and nothing of the old one')
        v = first.get_value_for(f, UNSET)
        H.check(v == 'old ' + f if load[f] in old else v is UNSET if f != 'd' else v == 7, 'the old instance is as it was')
    H.cover('replaced')


replaced.covers = ('replaced',)
chain.covers = ('valid', 'invalid', 'dump failed')
values.covers = ('kept', 'converted', 'nested', 'rejected', 'none')
arguments.covers = ('loaded',)
errors.covers = ('invalid', 'valid', 'foreign')
siblings.covers = ('invalid', 'valid')
SCENARIOS = dict(chain=chain, replaced=replaced, values=values, arguments=arguments, errors=errors, siblings=siblings)

SCENARIOS.update(
    deviations=model.run(('construct', 'errors', 'values', 'update', 'assign'), model.NESTED + model.FIELD + model.DATA + model.USER + ('state', 'cfg_style'), (('none', 'update', 'set'),), (1, 3), ('ok', 'value', 'foreign'), base={'typ': 'object'}, free=('obj.b@op1', 'init_kwargs', 'inner')),
    deeper=model.run(('construct', 'errors', 'values', 'update', 'assign'), model.NESTED + ('has', 'value', 'load', 'val', 'keys', 'none', 'default', 'inherit', 'state', 'which'), (('none', 'update', 'set'),), (2, 3), ('ok', 'value'), base={'typ': 'object'}, free=('inner_cfg', 'obj.b@init')),
    dumped=model.run(('dump',), model.NESTED + model.FIELD + ('has', 'value', 'dump', 'sametext', 'select', 'container', 'dumpkeys'), (('none', 'update'), 'dump'), (2, 3), ('ok', 'value'), base={'typ': 'object'}, free=('obj',)),
    failures=model.run(('construct', 'errors', 'update', 'assign'), model.NESTED + model.FIELD + model.DATA + ('load', 'sametext', 'format', 'which'), (('none', 'update', 'set'),), (1, 2), model.OUTCOMES + ('key', 'oblate', 'runtime'), base={'typ': 'object'}, free=('load.i', 'obj', 'which')),
    wide=wide_scenario(('construct', 'update', 'dump')),
)
