"""C07: dump() emits exactly the selected, set fields under their dump keys."""
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('schemas of 3 fields with arbitrary presence, stored and serialized values of any scalar kind; include/exclude collections '
          '(list, tuple, set, frozenset, dict keys) of up to 2 arbitrary names (symbolic strings), or any subset of the field names; inheritance')
ASSUMPTIONS = ['dump keys of the fields are distinct']


def expected(H, w, descr, present, inc, exc):
    """dump key -> expected value for the selected, set fields."""
    out = {}
    for f in descr:
        if f.name not in present:
            continue
        if inc is not None and not bool(H.Or(*[n == f.name for n in inc])):
            continue
        if exc is not None and bool(H.Or(*[n == f.name for n in exc])):
            continue
        out[f.dump_key] = w.result('dump', f.name)
    return out


def compare(H, w, got, want):
    H.check(type(got) is dict, 'a dict')
    H.check(sorted(got) == sorted(want), 'exactly the selected fields that have a value, under their dump keys')
    H.check(H.And(*[H.same(got[k], want[k]) for k in want]), 'what the field serialized')


def run(H, names, coll):
    w = World(H, ('ok',))
    swapped = H.flip('swapped keys')
    descr = [F('a', 'kb', required=False, none=True, dump_key='b' if swapped else 'da'),
             F('b', required=False, none=True, dump_key='a' if swapped else 'b'),
             F('c', required=False, none=True, default=H.value('def.c', ANY) if H.flip('c.def') else UNSET)]
    cls = make_schema(w, descr)
    present = H.choice('present', ('ab', 'a', 'b', '')) + ('c' if descr[2].default is not UNSET or H.flip('c.set') else '')
    w.begin('init')
    s = cls({f.key: H.value('init.' + f.name, INPUT) for f in descr if f.name in present})
    state = state_of(s, 'abc')
    H.check(sorted(n for n in state if state[n] is not UNSET) == sorted(present), 'start')
    mode = H.choice('mode', ('all', 'include', 'exclude', 'both'))
    w.begin('op')
    kw = {}
    arg = coll(names)
    if mode in ('include', 'both'):
        kw['include'] = arg
    if mode in ('exclude', 'both'):
        kw['exclude'] = coll(names[:1])
        if mode == 'exclude':
            kw['exclude'] = arg
    ok, r = w.attempt(s.dump, **kw)
    H.check(same_state(H, state, state_of(s, 'abc')), 'dumping does not change the schema')
    if mode == 'both':
        H.cover('both')
        H.check(not ok and isinstance(r, TypeError), 'include together with exclude is refused')
        H.check(not w.log, 'nothing is serialized')
        return
    H.check(ok, 'dump succeeds')
    H.cover(mode)
    want = expected(H, w, descr, present, names if mode == 'include' else None, names if mode == 'exclude' else None)
    compare(H, w, r, want)
    dumped = [e for e in w.log if e[0] == 'dump']
    H.check(sorted(e[1] for e in dumped) == sorted(f.name for f in descr if f.dump_key in want), 'each selected field is serialized once')
    H.check(H.And(*[H.same(e[2], state[e[1]]) for e in dumped]), 'from the stored value')
    if mode != 'both':
        w.begin('op')
        H.check(H.And(*[H.same(x, y) for x, y in [(s.dump(**kw).get(k), want[k]) for k in want]]), 'dumping again gives the same')


def symbolic_names(H):
    """Arbitrary names in the selection: field names, load keys, dump keys, others."""
    H.universe('a', 'b', 'c', 'kb', 'da')
    n = H.choice('n', (0, 1, 2))
    names = [H.str('name%d' % i) for i in range(n)]
    run(H, names, {'list': list, 'tuple': tuple}[H.choice('coll', ('list', 'tuple'))])


def subsets(H):
    """Every subset of names in every kind of collection."""
    names = [n for n in ('a', 'b', 'c', 'zz') if H.flip('in.' + n)]
    kind = H.choice('coll', ('list', 'tuple', 'set', 'frozenset', 'keys'))
    run(H, names, {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'keys': lambda x: dict.fromkeys(x).keys()}[kind])


def inherited(H):
    """Fields of parents and redefined fields."""
    w = World(H, ('ok',))
    base = make_schema(w, [F('a', required=False, dump_key='x'), F('b', required=False)], 'Base')
    red = H.flip('redefined')
    own = [F('c', required=False, dump_key='y')] + ([F('a', required=False, dump_key='z')] if red else [])
    cls = make_schema(w, own, 'Sub', base=base)
    s = cls({n: 1 for n in 'abc' if H.flip('has.' + n)})
    w.begin('op')
    keys = {'a': 'z' if red else 'x', 'b': 'b', 'c': 'y'}
    sel = H.choice('sel', (None, ('a',), ('a', 'c'), ('x', 'y')))
    how = H.choice('how', ('include', 'exclude')) if sel is not None else None
    got = s.dump(**({how: list(sel)} if how else {}))
    want = {}
    for n in 'abc':
        if s.get_value_for(n, None) is None and not H.flip('has.' + n):
            continue
        if not H.flip('has.' + n) or (how == 'include' and n not in sel) or (how == 'exclude' and n in sel):
            continue
        want[keys[n]] = w.result('dump', n)
    compare(H, w, got, want)
    H.cover('done')


def after_update(H):
    """The dump follows updates and assignments, never load keys."""
    w = World(H, ('ok',))
    descr = [F('a', 'k', required=False, none=True, dump_key='da'), F('b', required=False, none=True)]
    cls = make_schema(w, descr)
    s = construct_quietly(H, w, cls, descr, H.choice('present', ('ab', 'a', '')))
    w.begin('u')
    set_outs(cls, descr, FAIL)
    how = H.choice('how', ('set', 'update', 'none'))
    v = H.value('v', INPUT)
    if how == 'set':
        w.attempt(setattr, s, 'a', v)
    elif how == 'update':
        w.attempt(s.update, {'k': v, 'b': 3})
    st = state_of(s, 'ab')
    w.begin('op')
    got = s.dump()
    compare(H, w, got, {f.dump_key: w.result('dump', f.name) for f in descr if st[f.name] is not UNSET})
    H.check(H.And(*[H.same(e[2], st[e[1]]) for e in w.log if e[0] == 'dump']), 'from the current value')
    H.cover('done')


def nested(H):
    """A nested schema is dumped with every field of its own class, whatever class the field declares."""
    class Base(oblate.Schema):
        x = fields.Any(none=True, dump_key='dx')

    class Sub(Base):
        y = fields.Any(none=True, required=False, load_key='dx', dump_key='dy')

    class Subsub(Sub):
        x = fields.Any(none=True)
        z = fields.Any(none=True, required=False)

    class S(oblate.Schema):
        n = fields.Object(Base, dump_key='dn')
        m = fields.Object(Sub, required=False)
    x, y = H.value('x', INPUT), H.value('y', INPUT)
    what = H.choice('what', ('mapping', 'Base', 'Sub', 'Subsub'))
    cls = {'Base': Base, 'Sub': Sub, 'Subsub': Subsub}.get(what, Base)
    value = {'x': x}
    key = 'x' if cls is Subsub else 'dx'
    want = {key: x}
    if cls in (Sub, Subsub) and H.flip('y'):
        value['dx'] = y
        want['dy'] = y
    if cls is Subsub and H.flip('z'):
        value['z'] = 5
        want['z'] = 5
    v = value if what == 'mapping' else cls(value)
    how = H.choice('how', ('construct', 'update', 'set', 'inner'))
    if how == 'construct':
        s = S({'n': v})
    else:
        s = S({'n': {'x': 'old'}})
        if how == 'update':
            s.update({'n': v})
        else:
            s.n = v
    if how == 'inner':
        s.n.x = 7
        want[key] = 7
    full = {'dn': want}
    if cls in (Sub, Subsub) and H.flip('m'):
        s.m = v
        full['m'] = want
    sel = H.choice('select', (None, 'include', 'exclude'))
    got = s.dump(**({sel: ['n']} if sel else {}))
    if sel == 'exclude':
        del full['dn']
    elif sel:
        full.pop('m', None)
    H.check(type(got) is dict and sorted(got) == sorted(full), 'exactly the selected fields that have a value')
    for k in full:
        H.check(type(got[k]) is dict and sorted(got[k]) == sorted(full[k]), 'exactly the fields of the nested schema that have a value')
        H.check(H.And(*[H.same(got[k][j], full[k][j]) for j in full[k]]), 'with their values')
    H.cover('done')


symbolic_names.covers = subsets.covers = ('all', 'include', 'exclude', 'both')
inherited.covers = nested.covers = after_update.covers = ('done',)
SCENARIOS = dict(symbolic_names=symbolic_names, subsets=subsets, inherited=inherited, nested=nested, after_update=after_update)

SCENARIOS.update(
    blank=model.run(('dump',), model.FIELD + ('has', 'value', 'dump', 'select', 'container', 'dumpkeys'), ('dump', ('none', 'update', 'set'), ('none', 'dump')), (2, 3), ('ok', 'value'), base={'required.a': False, 'has.a@init': False, 'has.b@init': False}, covers=('ok',)),
    deviations=model.run(('dump',), model.FIELD + ('has', 'value', 'dump', 'sametext', 'select', 'container', 'dumpkeys'), ('dump',), (3, 4), ('ok', 'value'), free=('select',)),
    after=model.run(('dump',), model.FIELD + ('has', 'value', 'dump', 'sametext', 'select', 'container', 'dumpkeys'), (('update', 'set', 'dump'), 'dump'), (2, 3), ('ok', 'value'), free=('select@op2',), plain_init=True),
    scale=scale(('dump',), ('construct',)),
)
