"""C01: a schema is constructed exactly when its input data is valid."""
import oblate
import model
from common import *

BOUNDS = ('schemas of 1-3 fields, data of up to 2 (thorough: 3) entries with arbitrary string keys and values of kind None/int/str; up to 1 raw and 2 '
          'other validators per field; outcomes of user code: success, ValueError, AssertionError, FieldError (with subclasses and '
          'empty messages), foreign exceptions')
ASSUMPTIONS = ['default values are not callables in this check (callables: C03)']


def construct(H, w, cls, descr, entries, cfg_ignore, arg):
    """Builds the schema and compares with the oracle; entries: (key, value) pairs."""
    kw = {} if arg == 'omitted' else {'ignore_extra': arg}
    w.begin('op')
    ok, r = w.attempt(cls, mapping(H, entries), **kw)
    ignore = cfg_ignore if arg == 'omitted' else arg
    p = predict(w, descr, entries, 'op', ignore)
    H.out('ok', ok)
    check_result(H, w, p, ok, r, 'construction')
    if ok:
        H.check(type(r) is cls, 'an instance of the class')


def keys(H):
    """Arbitrary keys, values and flags."""
    H.universe('a', 'ka', 'b', 'zz')
    w = World(H, FAIL)
    descr = [F('a', 'ka', none=H.bool('a.none'), required=H.bool('a.req')),
             F('b', none=H.bool('b.none'), default=H.value('b.def', ANY) if H.flip('b.hasdef') else UNSET)]
    n = H.choice('n', H.bound((0, 1, 2), (0, 1, 2, 3)))
    cfg = H.flip('cfg')
    arg = H.choice('arg', ('omitted', True, False)) if n >= 1 else 'omitted'
    cls = make_schema(w, descr, config={'ignore_extra': cfg})
    entries = [(H.str('k%d' % i), H.value('v%d' % i, INPUT)) for i in range(n)]
    construct(H, w, cls, descr, entries, cfg, arg)


def flags(H):
    """Three fields: every presence pattern and all flags."""
    w = World(H, FAIL)
    variant = H.choice('variant', ('plain', 'swapped', 'reversed', 'extra'))
    swapped = variant == 'swapped'
    descr = [F('a', 'b' if swapped else 'a', none=H.bool('a.none'), required=H.bool('a.req')),
             F('b', 'a' if swapped else 'kb', none=H.bool('b.none'), required=H.bool('b.req'),
               default=H.value('b.def', ANY) if H.flip('b.hasdef') else UNSET),
             F('c', none=H.bool('c.none'), required=H.bool('c.req'))]
    entries = [(f.key, H.value('v.' + f.name, INPUT)) for f in descr if H.flip('has.' + f.name)]
    if variant == 'reversed':
        entries = entries[::-1]
    if variant == 'extra':
        entries.insert(0, ('c.', H.value('v.x', INPUT)))
    cls = make_schema(w, descr)
    construct(H, w, cls, descr, entries, False, 'omitted')


def callbacks(H):
    """All outcomes of deserializer and validators."""
    w = World(H, ALLOUT)
    descr = [F('a', none=H.bool('a.none'), raws=('r1',), vals=('v1',)), F('b', 'kb', outs=FAIL, required=False)]
    entries = [('a', H.value('v.a', INPUT))]
    if H.flip('has.b'):
        entries.insert(H.choice('pos', (0, 1)), ('kb', H.value('v.b', NONNULL)))
    cls = make_schema(w, descr)
    construct(H, w, cls, descr, entries, False, 'omitted')


def validators(H):
    """Several validators on two fields."""
    w = World(H, FAIL)
    descr = [F('a', none=H.bool('a.none'), raws=('ra',), vals=('v1', 'v2')), F('b', none=True, raws=('rb',), vals=('v3',))]
    entries = [('a', H.value('v.a', INPUT)), ('b', H.value('v.b', INPUT))]
    cls = make_schema(w, descr)
    construct(H, w, cls, descr, entries, False, 'omitted')


import collections.abc


class MyMapping(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Duck:
    """Looks like a mapping, but is none."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def copy(self):
        return Duck(dict(self.d))


def inputs(H):
    """The kind of the data argument itself."""
    w = World(H, FAIL)
    descr = [F('a', required=H.bool('req'))]
    cls = make_schema(w, descr)
    kind = H.choice('kind', ('dict', 'mapping', 'subdict', 'none', 'list', 'pairs', 'str', 'set', 'schema', 'instance', 'other instance', 'duck', 'bytes', 'int', 'items'))
    d = {'a': H.value('v', NONNULL)} if H.flip('has') else {}
    import collections
    data = {'dict': d, 'mapping': MyMapping(d), 'subdict': collections.OrderedDict(d), 'none': None, 'list': list(d),
            'pairs': list(d.items()), 'str': 'a', 'set': set(d), 'schema': cls, 'duck': Duck(d), 'bytes': b'', 'int': 0, 'items': d.items()}.get(kind)
    if kind in ('instance', 'other instance'):
        # an instance that dumps to valid data
        data = make_schema(w, [F('a', required=False, outs=('ok',), douts=('ok',))], base=cls if kind == 'instance' else None)(d)
    ok, r = w.attempt(cls, data)
    if kind in ('dict', 'mapping', 'subdict'):
        p = predict(w, descr, list(d.items()), 'op', False)
        H.cover('mapping ok' if p.ok else 'mapping bad')
        H.check(ok == p.ok, 'constructed exactly when valid')
        H.check(ok or isinstance(r, oblate.ValidationError), 'ValidationError otherwise')
    else:
        H.cover('not a mapping')
        H.check(not ok and isinstance(r, TypeError), 'data that is not a mapping is refused with TypeError')


def odd_keys(H):
    """Keys of any kind, also those that look like a load key or have no text."""
    w = World(H)
    keys = ODD_KEYS + UNPRINTABLE[:4]
    names = dict(zip(ODD_NAMES, 'mnopqrst'))
    ns = {n: HField(w, n, load_key=k, required=k == 'a', none=True) for k, n in names.items()}
    ns['__module__'] = __name__
    S = type(oblate.Schema)('S', (oblate.Schema,), ns)
    pairs = [('a', 4)] if H.flip('has a') else []
    for n in ('first', 'second') if H.flip('two') else ('first',):
        k = keys[H.choice(n, tuple(range(len(keys))))]
        if not any([k == x for x, _ in pairs]):
            pairs.append((k, H.value(n + '.v', Spec(('int', 'none')))))
    w.begin('op')
    ignore = H.flip('ignore')
    ok, r = w.attempt(S, dict(pairs), ignore_extra=True) if ignore else w.attempt(S, dict(pairs))
    good = any([k == 'a' for k, _ in pairs])
    for k, v in pairs:
        n = names[k] if k in names else None
        if n is None:
            good = good and ignore
        elif v is not None:
            good = w.outcome('load', n, w.outs, 'op') == 'ok' and good
    H.check(ok == good, 'constructed exactly when valid')
    H.check(ok or isinstance(r, oblate.ValidationError), 'ValidationError otherwise')
    H.cover('valid' if ok else 'invalid')


odd_keys.covers = keys.covers = flags.covers = validators.covers = ('valid', 'invalid')
callbacks.covers = ('valid', 'invalid', 'foreign')
inputs.covers = ('mapping ok', 'mapping bad', 'not a mapping')
SCENARIOS = dict(keys=keys, flags=flags, callbacks=callbacks, validators=validators, inputs=inputs, odd_keys=odd_keys)

SCENARIOS.update(
    deviations=model.run(('construct',), model.FIELD + model.DATA + model.USER + ('state', 'dumpkeys'), (), (3, 4), model.OUTCOMES),
    strange=model.run(('construct',), model.FIELD + model.DATA + model.USER + model.NESTED, (), (2, 3), model.STRANGE, base={'unknown': 'no'}, covers=('ok', 'failed', 'raised')),
    wide=wide_scenario(('construct',)),
    scale=scale(('end',), ('construct',)),
)
