"""C26: ignore_extra is honoured with argument-over-configuration precedence."""
import collections.abc
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('construction, update and nested construction; the configuration absent, on, off, inherited from a parent or replaced by a '
          'subclass; the argument absent, true or false; 0-2 unknown keys with symbolic names and values, in any position, together with '
          'other failures')
ASSUMPTIONS = ['unknown key names are strings other than the load keys of the fields (attribute names of renamed fields included)']


def build(H, w, descr):
    """A schema class and whether its configuration ignores extra keys."""
    conf = H.choice('conf', ('none', 'on', 'off', 'inherited on', 'inherited off', 'replaced on', 'replaced off', 'other'))
    if conf == 'none':
        return make_schema(w, descr), False
    if conf == 'other':
        return make_schema(w, descr, config={'add_repr': False}), False
    if conf in ('on', 'off'):
        return make_schema(w, descr, config={'ignore_extra': conf == 'on'}), conf == 'on'
    how, val = conf.split()
    val = val == 'on'
    if how == 'inherited':
        base = make_schema(w, (), name='Base', config={'ignore_extra': val})
        return make_schema(w, descr, base=base), val
    base = make_schema(w, (), name='Base', config={'ignore_extra': not val})
    return make_schema(w, descr, base=base, config={'ignore_extra': val}), val


def argument(H, cfg):
    """(keyword arguments, effective setting)."""
    arg = H.choice('arg', ('absent', True, False))
    if arg == 'absent':
        return {}, cfg
    return {'ignore_extra': arg}, arg


def entries(H, w, cls, extra=()):
    """Known entries of fields a ('ka') and b, with unknown ones around them."""
    H.universe('ka', 'b', 'a', 'kc')
    es = []
    if H.flip('a'):
        es.append(('ka', H.value('va', Spec(('int', 'none')))))
    n = H.choice('unknown', (0, 1, 2))
    us = []
    for i in range(n):
        k = H.str('key%d' % i, maxlen=4) if i == 0 else 'a'
        H.assume(H.And(*[H.Not(H.eq(k, x)) for x in ('ka', 'b', 'kc')]))
        if i:
            H.assume(H.Not(H.eq(us[0][0], 'a')))
        us.append((k, H.value('uv%d' % i, ANY)))
    if us:
        at = H.choice('at', (0, len(es)))
        es[at:at] = us[:1]
        es += us[1:]
    if H.flip('b'):
        es.append(('b', 1))
    return es


def judge(H, w, descr, es, ok, r, ignoring, mode, what):
    p = predict(w, descr, es, 'op', ignoring, mode=mode)
    if check_result(H, w, p, ok, r, what):
        H.check(same_multiset(observed_errors(descr, es, r), p.errors), 'exactly the predicted errors')
    return p


def construct(H):
    w = World(H, ('ok', 'value'))
    descr = [F('a', 'ka', vals=('va',) if H.flip('va') else (), vouts=FAIL), F('b', required=False, outs=('ok',)), F('c', 'kc', required=False, default=4, douts=('ok',))]
    cls, cfg = build(H, w, descr)
    es = entries(H, w, cls)
    kw, ignoring = argument(H, cfg)
    w.begin('op')
    ok, r = w.attempt(cls, mapping(H, es), **kw)
    p = judge(H, w, descr, es, ok, r, ignoring, 'load', 'construction')
    if ok:
        st = state_of(r, 'abc')
        for f in descr:
            H.check(same_value(H, st[f.name], p.values.get(f.name, UNSET)), 'ignored keys have no effect on the values')
        H.check(all(x[1] in ('a', 'b', 'va') for x in w.log), 'nor call anything')
        if len(es) > len([1 for k, v in es if find(descr, k)]):
            H.cover('ignored')
        d = r.dump(include=['c'])
        H.check(list(d) == ['c'], 'nothing extra is dumped')
        if H.flip('again'):
            # a later update is judged by the configuration again
            ok, r2 = w.attempt(r.update, {'unk': 1})
            H.check(ok == cfg, 'the argument of the construction does not stick')
            H.cover('later')


def update(H):
    w = World(H, ('ok', 'value'))
    descr = [F('a', 'ka', required=False, vals=('va',) if H.flip('va') else (), vouts=FAIL), F('b', required=False, outs=('ok',)),
             F('c', 'kc', required=False, outs=('ok',))]
    cls, cfg = build(H, w, descr)
    s = construct_quietly(H, w, cls, descr, 'c') if not H.flip('constructed leniently') else cls({'kc': 3, 'junk': 1}, ignore_extra=True)
    before = state_of(s, 'abc')
    es = entries(H, w, cls)
    kw, ignoring = argument(H, cfg)
    w.begin('op')
    ok, r = w.attempt(s.update, mapping(H, es), **kw)
    p = judge(H, w, descr, es, ok, r, ignoring, 'update', 'update')
    exp = dict(before)
    if p.ok:
        exp.update(p.values)
        if len(es) > len([1 for k, v in es if find(descr, k)]):
            H.cover('ignored')
    H.check(same_state(H, exp, state_of(s, 'abc')), 'ignored keys have no effect, failing updates neither')


def nested(H):
    """The setting of one schema says nothing about nested ones."""
    inner_cfg, outer_cfg = H.choice('inner', ('none', True, False)), H.choice('outer', ('none', True, False))
    ik = H.choice('init_kwargs', ('none', 'empty', True, False))
    w = World(H, ('ok',))

    def conf(v):
        return {} if v == 'none' else {'Config': type('Config', (oblate.SchemaConfig,), {'ignore_extra': v})}
    meta = type(oblate.Schema)
    In = meta('In', (oblate.Schema,), dict(x=fields.Any(required=False), __module__=__name__, **conf(inner_cfg)))
    kw = {} if ik == 'none' else {'init_kwargs': {}} if ik == 'empty' else {'init_kwargs': {'ignore_extra': ik}}
    Out = meta('Out', (oblate.Schema,), dict(n=fields.Object(In, required=False, **kw), y=fields.Any(required=False), __module__=__name__, **conf(outer_cfg)))
    inner_ig = ik if ik in (True, False) and ik not in ('none', 'empty') else inner_cfg is True
    outer_ig = outer_cfg is True
    args, outer_ig = argument(H, outer_ig)
    iu, ou = H.flip('inner unknown'), H.flip('outer unknown')
    data = {'n': {'x': 1, 'zz': 2} if iu else {'x': 1}, 'y': 5}
    if ou:
        data['x'] = 3
    if H.flip('update'):
        s = Out({})
        ok, r = w.attempt(s.update, data, **args)
    else:
        ok, r = w.attempt(Out, data, **args)
        s = r
    exp = []
    if iu and not inner_ig:
        exp.append('n')
    if ou and not outer_ig:
        exp.append('x')
    H.check(ok == (not exp), 'each level follows its own setting')
    if ok:
        H.check(s.n.x == 1 and s.y == 5, 'values')
        H.cover('valid')
    else:
        raw = r.raw()
        H.check(sorted(raw) == exp, 'the unknown keys of each level')
        if 'n' in exp:
            H.check(list(raw['n'][0]) == ['zz'], 'the inner unknown key')
        H.cover('invalid')


class Raising(collections.abc.Mapping):
    def __init__(self, d, extra):
        self.d, self.extra = d, extra

    def __getitem__(self, k):
        if k in self.extra:
            return 1
        return self.d[k]

    def __iter__(self):
        yield from self.extra
        yield from self.d

    def __len__(self):
        return len(self.d) + len(self.extra)


def other_errors(H):
    """Ignoring extra keys never suppresses other errors (missing, None, frozen, foreign), also for odd keys and mappings."""
    w = World(H, ('ok', 'value', 'foreign'))
    descr = [F('a', 'ka', none=False), F('b', required=H.flip('b.required'), none=H.flip('b.none')), F('z', frozen=True, required=False)]
    cls = make_schema(w, descr, config={'ignore_extra': H.flip('cfg')})
    odd = H.choice('odd', ('a', '', 'KA', 0, None, ('ka',), True))
    es = [(odd, H.value('uv', ANY))]
    mode = H.choice('mode', ('load', 'update'))
    present = H.choice('present', ('', 'a', 'b', 'ab', 'az'))
    for n in present:
        es.append(({'a': 'ka'}.get(n, n), H.value('v.' + n, Spec(('int', 'none')))))
    if H.flip('last'):
        es = es[1:] + es[:1]
    d = dict(es)
    data = Raising(dict((k, v) for k, v in es if k is not odd), [odd]) if H.flip('mapping') else d
    if type(data) is Raising:
        es = sorted(es, key=lambda e: e[0] is not odd)
    if mode == 'update':
        s = construct_quietly(H, w, cls, descr, 'ab')
    w.begin('op')
    ok, r = w.attempt(cls if mode == 'load' else s.update, data, ignore_extra=True)
    p = predict(w, descr, es, 'op', True, mode=mode)
    if p.frozen and not ok and isinstance(r, Foreign):
        return
    if check_result(H, w, p, ok, r, mode):
        H.check(same_multiset(observed_errors(descr, es, r), p.errors), 'all other errors are reported')


construct.covers = ('valid', 'invalid', 'ignored', 'later')
update.covers = ('valid', 'invalid', 'ignored')
nested.covers = ('valid', 'invalid')
other_errors.covers = ('valid', 'invalid', 'foreign', 'frozen')
SCENARIOS = dict(construct=construct, update=update, nested=nested, other_errors=other_errors)

SCENARIOS.update(
    deviations=model.run(('construct', 'errors', 'values', 'calls'), model.FIELD + model.DATA + model.USER, (), (2, 3), ('ok', 'value', 'foreign'), free=('unknown', 'ignore_arg', 'cfg_ignore')),
    deviations_update=model.run(('update', 'errors', 'calls'), model.FIELD + model.DATA + model.USER, ('update',), (1, 2), ('ok', 'value', 'foreign'), free=('unknown', 'ignore_arg', 'cfg_ignore'), plain_init=True),
    stated=model.run(('construct', 'errors', 'values', 'update'), model.FIELD + model.DATA + ('load', 'state', 'cfg_style', 'cfg_frozen'), (('none', 'update'),), (1, 2), ('ok', 'value'), free=('unknown@init', 'ignore_arg@init', 'cfg_ignore', 'state')),
    deviations_nested=model.run(('construct', 'errors', 'update', 'assign'), model.NESTED + model.DATA + ('which', 'load', 'cfg_style'), (('update', 'set'),), (1, 3), ('ok', 'value'), base={'typ': 'object'}, free=('obj.b@op1', 'init_kwargs', 'inner_cfg', 'cfg_ignore')),
    many=model.run(('construct', 'errors', 'values', 'calls', 'update'), model.FIELD + model.DATA + model.USER, (('none', 'update'),), (2, 3), ('ok', 'value'), base={'unknown': 'four'}, free=('ignore_arg', 'cfg_ignore')),
)
