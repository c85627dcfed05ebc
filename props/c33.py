"""C33: preprocessing and post-initialization hooks run once at the right time."""
import collections.abc
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('data and returned values of every kind (dicts, other mappings, anything else, symbolic entries); hooks that succeed, fail in any '
          'way, modify or replace the data; defined on the class, a parent or overridden with super(); field outcomes of every kind; followed by '
          'updates, assignments, dumps and copies; nested schemas and hooks that construct the same class again')
ASSUMPTIONS = []


class Map(collections.abc.Mapping):
    """A mapping that is no dict and notices being read."""
    def __init__(self, pairs):
        self.d, self.read = dict(pairs), []

    def __getitem__(self, k):
        self.read.append(k)
        return self.d[k]

    def __iter__(self):
        self.read.append('iter')
        return iter(self.d)

    def __len__(self):
        return len(self.d)


NOT = ('none', 'list', 'pairs', 'str', 'int', 'set', 'schema', 'class', 'tuple')


def thing(H, kind, es, name):
    if kind == 'dict':
        return dict(es)
    if kind == 'map':
        return Map(es)
    if kind == 'list':
        return []
    if kind == 'pairs':
        return list(es)
    if kind == 'str':
        return ''
    if kind == 'int':
        return H.value(name, Spec(('int', 'bool', 'float')))
    if kind == 'set':
        return {'ka'}
    if kind == 'schema':
        return Plain({})
    if kind == 'class':
        return dict
    if kind == 'tuple':
        return ()
    return None


class Plain(oblate.Schema):
    pass


def make(H, w, pre, post, descr):
    """The schema; hooks may be inherited or extended."""
    how = H.choice('defined', ('class', 'parent', 'super'))
    if how == 'class':
        return make_schema(w, descr, preprocess_data=pre, __schema_post_init__=post)
    if how == 'parent':
        base = make_schema(w, (), name='Base', preprocess_data=pre, __schema_post_init__=post)
        return make_schema(w, descr, base=base)
    base = make_schema(w, (), name='Base', preprocess_data=pre, __schema_post_init__=post)

    def pre2(self, data):
        return super(cls, self).preprocess_data(data)

    def post2(self):
        super(cls, self).__schema_post_init__()
    cls = make_schema(w, descr, base=base, preprocess_data=pre2, __schema_post_init__=post2)
    return cls


def construction(H):
    w = World(H, ('ok', 'value', 'foreign'), ('ok', 'value'))
    calls = []
    descr = [F('a', 'ka', vals=('va',)), F('b', required=False, default=4)]
    kind = H.choice('data', ('dict', 'map') + NOT)
    es = [('ka', H.value('a', INPUT))] if H.flip('a') else []
    data = thing(H, kind, es, 'num')
    pre_how = H.choice('pre', ('same', 'new dict', 'new map', 'added', 'emptied', 'fails', 'foreign') + tuple('returns ' + n for n in NOT)) if kind in (
        'dict', 'map') else 'same'
    post_how = H.choice('post', ('ok', 'value', 'foreign')) if pre_how in ('same', 'new dict', 'added') else 'ok'
    loaded = [es]

    def pre(self, given):
        calls.append('pre')
        H.check(given is data, 'the given data')
        H.check(w.log == [] and not (type(given) is Map and given.read), 'before anything is validated')
        H.check(not self.context.is_initialized(), 'not initialized')
        H.check(self.get_value_for('a', UNSET) is UNSET and self.get_value_for('b', UNSET) is UNSET, 'no values yet')
        if pre_how == 'same':
            return given
        if pre_how.startswith('new'):
            loaded[0] = [('ka', H.value('new', INPUT)), ('zz', 1)] if H.flip('new.unknown') else [('ka', H.value('new', INPUT))]
            return thing(H, pre_how[4:], loaded[0], '')
        if pre_how == 'added':
            loaded[0] = es + [('b', 5)]
            return dict(loaded[0])
        if pre_how == 'emptied':
            loaded[0] = []
            return {}
        if pre_how == 'fails':
            raise ValueError('pre')
        if pre_how == 'foreign':
            raise Foreign('pre')
        return thing(H, pre_how[8:], es, 'ret')

    def post(self):
        calls.append('post')
        H.check(self.context.is_initialized(), 'initialized')
        st.append(state_of(self, 'ab'))
        w.fail(post_how, 'post')
    st = []
    cls = make(H, w, pre, post, descr)
    w.begin('op')
    ok, r = w.attempt(cls, data)
    if kind not in ('dict', 'map'):
        H.check(not ok and type(r) is TypeError and calls == [] and w.log == [], 'data that is no mapping is refused before any hook')
        H.cover('no mapping')
        return
    H.check(calls[:1] == ['pre'] and calls.count('pre') == 1, 'the preprocessing hook ran once, first')
    if pre_how in ('fails', 'foreign'):
        H.check(not ok and type(r) is (ValueError if pre_how == 'fails' else Foreign), 'errors of the hook are let through')
        H.check(calls == ['pre'] and w.log == [], 'nothing else ran')
        return
    if pre_how.startswith('returns'):
        H.check(not ok and type(r) is TypeError and calls == ['pre'] and w.log == [], 'a returned non-mapping is refused')
        H.cover('returned no mapping')
        return
    p = predict(w, descr, loaded[0], 'op', False)
    if p.ok:
        H.check(calls == ['pre', 'post'], 'the post-initialization hook ran once')
        H.check(same_state(H, st[0], {'a': p.values['a'], 'b': p.values['b']}), 'after every value was set')
        if post_how == 'ok':
            H.check(ok, 'constructed')
            H.cover('constructed')
        else:
            H.check(not ok and type(r) is (ValueError if post_how == 'value' else Foreign), 'errors of the hook are let through')
            H.cover('post failed')
    else:
        H.check(not ok and calls == ['pre'], 'no post-initialization hook after a failure')
        if check_result(H, w, p, ok, r, 'construction'):
            H.check(same_multiset(observed_errors(descr, loaded[0], r), p.errors), 'exactly what the hook returned was loaded')


def later(H):
    """No hook runs for updates, assignments, dumps, copies and reads."""
    w = World(H, ('ok',), FAIL)
    calls = []
    descr = [F('a', 'ka', vals=('va',), none=True), F('b', required=False, outs=('ok', 'value'))]
    cls = make(H, w, lambda self, data: calls.append('pre') or data, lambda self: calls.append('post'), descr)
    cls.a.clear_validators()
    s = construct_quietly(H, w, cls, descr, 'a')
    H.check(calls == ['pre', 'post'], 'once each')
    cls.a.add_validator(w.validator('va'))
    if H.flip('copy'):
        s = s.copy()
    for op in H.bound(('1', '2'), ('1', '2', '3')):
        w.begin(op)
        how = H.choice('how.' + op, ('update', 'empty update', 'set', 'set b', 'dump', 'read', 'repr', 'unknown', 'no mapping'))
        v = H.value('v.' + op, INPUT)
        if how == 'update':
            w.attempt(s.update, {'ka': v, 'b': 1})
        elif how == 'empty update':
            w.attempt(s.update, {})
        elif how == 'unknown':
            w.attempt(s.update, {'zz': v}, ignore_extra=H.flip('ignore'))
        elif how == 'no mapping':
            w.attempt(s.update, None)
        elif how == 'set':
            w.attempt(setattr, s, 'a', v)
        elif how == 'set b':
            w.attempt(setattr, s, 'b', v)
        elif how == 'dump':
            w.attempt(s.dump)
        elif how == 'repr':
            repr(s)
        else:
            w.attempt(s.get_value_for, 'ka')
        H.check(calls == ['pre', 'post'], 'neither hook runs again')
        H.check(s.context.is_initialized(), 'still initialized')
    H.cover('later')


def nested(H):
    """Nested schemas run their own hooks once for each of their constructions, in the right order."""
    calls = []
    ok_in = H.flip('inner ok')
    inst = H.flip('instance')

    class In(oblate.Schema):
        x = fields.Any()

        def preprocess_data(self, data):
            calls.append('in.pre')
            return data

        def __schema_post_init__(self):
            calls.append('in.post')
            H.check(self.x == 1, 'the inner values are set')
            if H.flip('inner post fails'):
                raise ValueError('in.post')

    class S(oblate.Schema):
        n = fields.Object(In)
        t = fields.Any(required=False)

        def preprocess_data(self, data):
            calls.append('pre')
            return data

        def __schema_post_init__(self):
            calls.append('post')
            H.check(type(self.n) is In and self.n.context.is_initialized(), 'the nested value is set')
    if inst:
        ok, i = H.attempt(In, {'x': 1})
        if not ok:
            H.check(type(i) is ValueError and calls == ['in.pre', 'in.post'], 'let through')
            return
        del calls[:]
        ok, r = H.attempt(S, {'n': i, 't': 2})
        H.check(ok and calls == ['pre', 'post'], 'instances are not constructed again')
        return
    ok, r = H.attempt(S, {'n': {'x': 1} if ok_in else {}, 't': 2})
    if not ok_in:
        H.check(not ok and calls == ['pre', 'in.pre'], 'no post-initialization hook after a failure')
        H.cover('failed')
    elif H.flip('inner post fails'):
        H.check(not ok and isinstance(r, oblate.ValidationError) and calls == ['pre', 'in.pre', 'in.post'], 'a failing inner hook fails the outer field')
        H.check(r.raw() == {'n': ['in.post']}, 'with its message')
    else:
        H.check(ok and calls == ['pre', 'in.pre', 'in.post', 'post'], 'in order, once each')
        H.cover('ok')


def reentrant(H):
    """Hooks that construct, copy, update or dump schemas of the same class; the hook of each construction runs for it."""
    calls = []
    where, what = H.choice('where', ('pre', 'post')), H.choice('what', ('construct', 'bad', 'update', 'set', 'dump', 'copy', 'nothing'))
    busy = []

    def act(self):
        if busy:
            return
        busy.append(1)
        if what == 'construct':
            S({'ka': 5})
        elif what == 'bad':
            ok, r = H.attempt(S, {})
            H.check(not ok and isinstance(r, oblate.ValidationError), 'the inner construction fails on its own')
        elif where == 'post':
            if what == 'update':
                self.update({'ka': 6})
            elif what == 'set':
                self.a = 6
            elif what == 'dump':
                H.check(H.same(self.dump()['a'], v), 'everything is dumped')
            elif what == 'copy':
                self.copy().a = 7

    class S(oblate.Schema):
        a = fields.Any(load_key='ka')

        def preprocess_data(self, data):
            calls.append(('pre', self))
            if where == 'pre':
                act(self)
            return data

        def __schema_post_init__(self):
            calls.append(('post', self))
            if where == 'post':
                act(self)
    v = H.value('v', NONNULL)
    s = S({'ka': v})
    mine = [c for c, x in calls if x is s]
    H.check(mine == ['pre', 'post'], 'once each for the outer construction')
    rest = [c for c, x in calls if x is not s]
    H.check(rest == {'construct': ['pre', 'post'], 'bad': ['pre']}.get(what, []), 'once each for the inner construction')
    H.check(H.same(s.a, 6 if where == 'post' and what in ('update', 'set') else v), 'what the post-initialization hook assigns stays')
    H.cover('done')


construction.covers = ('no mapping', 'returned no mapping', 'constructed', 'post failed', 'invalid', 'foreign')
later.covers = ('later',)
nested.covers = ('failed', 'ok')
reentrant.covers = ('done',)
SCENARIOS = dict(construction=construction, later=later, nested=nested, reentrant=reentrant)

SCENARIOS.update(
    blank=model.run(('hooks',), model.FIELD + model.DATA + model.USER + ('which',), (('none', 'update', 'set'),), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False}),
    deviations=model.run(('hooks',), model.FIELD + model.DATA + model.USER + ('typ', 'obj', 'state', 'cfg_frozen', 'cfg_style'), (), (3, 4), ('ok', 'value', 'foreign')),
    later_deviations=model.run(('hooks',), model.FIELD + model.DATA + model.USER + ('typ', 'obj', 'which', 'dump', 'select'), (('update', 'set', 'dump'),), (2, 3), ('ok', 'value', 'foreign')),
)
