"""C09: every failure while dumping is reported, at every depth."""
import oblate
import model
from oblate import fields
from common import *

BOUNDS = ('schemas of up to 3 fields and nesting up to 3 levels; every outcome of value_dump (success, ValueError/AssertionError/FieldError, '
          'their subclasses, empty messages, foreign exceptions); selections; a second operation after the failing one')
ASSUMPTIONS = ['the wording of the validation-failed message is the error code (format_error of the test fields)']


def want_errors(w, descr, present, op='op'):
    """(foreign?, {load key: [labels]}) of dumping the fields."""
    errs, foreign = {}, False
    for f in descr:
        if f.name not in present:
            continue
        o = w.outcome('dump', f.name, f.douts or w.douts, op)
        if is_foreign(o):
            foreign = True
        elif o != 'ok':
            errs[f.key] = [label_of(o, 'dump:' + f.name)]
    return foreign, errs


def flat(H):
    """All outcomes over three fields with selection."""
    w = World(H, ('ok',), douts=('ok', 'value', 'foreign'))
    descr = [F('a', 'ka', required=False, none=True, dump_key='x', douts=ALLOUT), F('b', required=False, none=True),
             F('c', required=False, none=True)]
    cls = make_schema(w, descr)
    present = H.choice('present', ('abc', 'ab', 'bc', 'a', ''))
    s = construct_quietly(H, w, cls, descr, present)
    state = state_of(s, 'abc')
    sel = H.choice('sel', (None, 'include ab', 'exclude a'))
    kw = {None: {}, 'include ab': dict(include=['a', 'b']), 'exclude a': dict(exclude=('a',))}[sel]
    chosen = {None: 'abc', 'include ab': 'ab', 'exclude a': 'bc'}[sel]
    w.begin('op')
    ok, r = w.attempt(s.dump, **kw)
    foreign, errs = want_errors(w, descr, [n for n in present if n in chosen])
    H.check(same_state(H, state, state_of(s, 'abc')), 'a dump changes nothing')
    if foreign:
        H.cover('foreign')
        H.check(not ok and isinstance(r, EXCS), 'foreign exceptions propagate')
    elif errs:
        H.cover('failed')
        H.check(not ok and isinstance(r, oblate.ValidationError), 'one ValidationError')
        H.check(r.raw() == errs, 'each failing field once under its load key, with its message')
        H.check(r.schema is s, 'of this schema')
    else:
        H.cover('dumped')
        H.check(ok, 'nothing fails: nothing is raised')
        H.check(sorted(r) == sorted(f.dump_key for f in descr if f.name in present and f.name in chosen), 'complete output')
    # a later operation is not affected
    w.begin('again')
    for f in descr:
        getattr(cls, f.name).douts = ('ok',)
    ok, r = w.attempt(s.dump)
    H.check(ok and sorted(r) == sorted(f.dump_key for f in descr if f.name in present), 'a later dump succeeds')


def lists(H):
    """FieldErrors with several messages while dumping."""
    class L(Pass):
        def value_dump(self, value, context):
            how = H.choice('how.' + self.name, ('ok', 'list', 'dict', 'plain'))
            if how == 'list':
                raise oblate.FieldError(['m1', 'm2'])
            if how == 'dict':
                raise oblate.FieldError({'k': ['m']})
            if how == 'plain':
                raise ValueError('p')
            return value

    class S(oblate.Schema):
        a = L(load_key='k')
        b = L()
    s = S({'k': 1, 'b': 2})
    ok, r = H.attempt(s.dump)
    want = {}
    for n, k in (('a', 'k'), ('b', 'b')):
        how = H.choice('how.' + n, ('ok', 'list', 'dict', 'plain'))
        if how != 'ok':
            want[k] = {'list': ['m1', 'm2'], 'dict': [{'k': ['m']}], 'plain': ['p']}[how]
    H.check(ok == (not want), 'fails exactly when a field fails')
    if not ok:
        H.cover('failed')
        H.check(r.raw() == want, 'all messages')
    else:
        H.cover('dumped')


def nested(H):
    """Nested schemas up to three levels: failures appear nested under the outer field, with all inner keys."""
    w = World(H, ('ok',), douts=H.bound(('ok', 'value', 'foreign'), ALLOUT))
    leafd = [F('x', 'kx', required=False), F('y', required=False)]
    Leaf = make_schema(w, leafd, 'Leaf')
    midd = [F('m', required=False, none=True)]
    Mid = make_schema(w, midd, 'Mid', leaf=fields.Object(Leaf, load_key='kl', required=False, none=True, dump_key='dl'))
    topd = [F('t', 'kt', required=False)]
    Top = make_schema(w, topd, 'Top', mid=fields.Object(Mid, required=False, none=True),
                      leaf=fields.Object(Leaf, required=False, load_key='tl'))
    shape = H.choice('shape', ('mid.leaf', 'mid', 'leaf', 'none', 'mid.none', 'mid none'))
    leaf = Leaf({'kx': 1, 'y': 2} if H.flip('both') else {'kx': 1})
    data = {}
    if H.flip('t'):
        data['kt'] = 1
    if shape == 'mid.leaf':
        data['mid'] = {'m': 1, 'kl': leaf}
    elif shape == 'mid':
        data['mid'] = {'m': 1}
    elif shape == 'mid.none':
        data['mid'] = {'m': None, 'kl': None}
    elif shape == 'mid none':
        data['mid'] = None
    elif shape == 'leaf':
        data['tl'] = leaf
    w.begin('init')
    top = Top(data)
    w.begin('op')
    ok, r = w.attempt(top.dump)
    lf, le = (False, {}) if shape not in ('mid.leaf', 'leaf') else want_errors(w, leafd, 'xy' if H.flip('both') else 'x')
    mf, me = (False, {}) if not shape.startswith('mid') or shape == 'mid none' else want_errors(w, midd, 'm')
    tf, te = want_errors(w, topd, 't' if H.flip('t') else '')
    if lf or mf or tf:
        H.cover('foreign')
        H.check(not ok and isinstance(r, EXCS), 'foreign exceptions propagate')
        return
    want = dict(te)
    if shape == 'leaf' and le:
        want['tl'] = [le]
    if shape.startswith('mid'):
        if shape == 'mid.leaf' and le:
            me['kl'] = [le]
        if me:
            want['mid'] = [me]
    if want:
        H.cover('failed')
        H.check(not ok and isinstance(r, oblate.ValidationError), 'one ValidationError')
        H.check(r.raw() == want, 'nested errors under the outer field, complete')
        H.check(all(part in str(r) for part in texts(want)), 'the text names all of them')
    else:
        H.cover('dumped')
        H.check(ok, 'nothing raised')
        if shape == 'mid.leaf':
            H.check(sorted(r['mid']['dl']) == (['x', 'y'] if H.flip('both') else ['x']), 'nested output')
        if shape == 'mid none':
            H.check(r['mid'] is None, 'None stays None')
        if shape == 'mid.none':
            H.check(r['mid']['dl'] is None, 'None stays None')


def texts(x):
    if isinstance(x, dict):
        out = list(x)
        for v in x.values():
            out += texts(v)
        return out
    if isinstance(x, list):
        return [t for v in x for t in texts(v)]
    return [x]


def afterwards(H):
    """A failed (or foreign) dump inside other operations does not disturb them."""
    w = World(H, FAIL, douts=('ok', 'value', 'foreign'))
    inner_d = [F('i', required=False)]
    Inner = make_schema(w, inner_d, 'Inner')
    inner = construct_quietly(H, w, Inner, inner_d, 'i', 'init')
    descr = [F('a', 'ka', required=False, none=True, vals=('va',)), F('b', required=False)]
    cls = make_schema(w, descr)
    w.hooks['load', 'a'] = lambda *a: w.attempt(inner.dump)
    es = [('ka', 1), ('b', 2), ('zz', 3)] if H.flip('unknown') else [('ka', 1), ('b', 2)]
    w.begin('op')
    ok, r = w.attempt(cls, dict(es))
    p = predict(w, descr, es, 'op', False)
    if check_result(H, w, p, ok, r, 'construction'):
        H.check(same_multiset(observed_errors(descr, es, r), p.errors), 'the errors of the outer operation are its own')


flat.covers = nested.covers = ('foreign', 'failed', 'dumped')
lists.covers = ('failed', 'dumped')
afterwards.covers = ('valid', 'invalid')
SCENARIOS = dict(flat=flat, lists=lists, nested=nested, afterwards=afterwards)

SCENARIOS.update(
    deviations=model.run(('dump', 'errors'), model.FIELD + ('has', 'value', 'dump', 'sametext', 'select', 'container', 'dumpkeys') + ('format', 'typ', 'obj'), ('dump',), (2, 3), model.OUTCOMES, free=('dump',)),
    strange=model.run(('dump', 'errors'), model.FIELD + ('has', 'dump', 'sametext', 'select', 'dumpkeys') + ('format', 'typ', 'obj'), ('dump',), (2, 3), model.STRANGE + ('value',), covers=('ok', 'failed', 'raised')),
    wide=wide_scenario(('dump',)),
    scale=scale(('dump',), ('update',)),
)
