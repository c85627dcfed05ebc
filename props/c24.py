"""C24: subclasses inherit all fields and configuration without affecting parents."""
import oblate
import model
from oblate import fields, validate
from common import *

BOUNDS = ('hierarchies of up to 4 classes (single, two levels, siblings, multiple inheritance, diamond); up to 2 own fields per class, redefinitions with the same, a new or a '
          'swapped load key and with other options, validators on inherited fields by name or by the field of a parent; every input with up to 2 keys (thorough: 3) to every class of the hierarchy')
BOUNDS += '; lines of 5 (thorough: 7) classes'
ASSUMPTIONS = ['load keys of the fields of one class are distinct', 'with several parents at most one line of parents carries a configuration']


class Hier:
    """A hierarchy and, for each class, the descriptions of its fields."""

    def __init__(self, H, w):
        self.H, self.w, self.classes, self.expect = H, w, {}, {}
        self.own, self.config, self.extra = {}, {}, {}

    def add(self, name, bases, own=(), config=None, validators=(), by='name', annotated=False, body=None):
        """validators: names of inherited (or own) fields that get one validator, registered by name, or by the field of the parent ('object') or of the topmost class ('top')."""
        w = self.w
        ns = {'__module__': __name__}
        for f in own:
            g = f.make(w)
            g.ident = name + '.' + f.name
            ns[f.name] = g
        for i, fn in enumerate(validators):
            ident = '%s.check%d' % (name, i)
            target = fn
            if by != 'name':
                target = ns[fn] if fn in ns else getattr(self.classes[bases[0] if by == 'object' else list(self.classes)[0]], fn)
            ns['check%d' % i] = self.method(ident, target)
        if annotated:
            ns['__annotations__'] = {f.name: 'int' for f in own}
        ns.update(body or {})
        if config:
            ns['Config'] = type('Config', (oblate.SchemaConfig,), config)
        parents = tuple(self.classes[b] for b in bases) or (oblate.Schema,)
        cls = type(oblate.Schema)(name, parents, ns)
        self.classes[name] = cls
        own = [self.describe(f, name) for f in own]
        # reference: fields along the method resolution order
        merged = {}
        self.own[name] = {f.name: f for f in own}
        by_cls = {c: n for n, c in self.classes.items()}
        for c in reversed(cls.__mro__):
            if c in by_cls:
                for f in self.own[by_cls[c]].values():
                    merged[f.name] = f
        for i, fn in enumerate(validators):
            g = merged[fn]
            c = F(g.name, key=g.key, none=g.none, required=g.required, default=g.default, raws=g.raws, vals=g.vals + ('%s.check%d' % (name, i),), dump_key=g.dump_key)
            c.ident = g.ident
            merged[fn] = self.own[name][fn] = c
        self.expect[name] = merged
        cfgs = [self.config[by_cls[c]] for c in cls.__mro__[1:] if c in by_cls and self.config[by_cls[c]]]
        self.config[name] = config or (cfgs[0] if cfgs else None)
        return cls

    def describe(self, f, cname):
        f.ident = cname + '.' + f.name
        return f

    def method(self, ident, fn):
        v = self.w.validator(ident)

        def check(self, value, context):
            return v(self, value, context)
        return validate.field(fn)(check)

    def probe(self, names=None, keys=()):
        """Load arbitrary data into one of the classes and compare with the description."""
        H, w = self.H, self.w
        name = H.choice('class', tuple(names or self.classes))
        cls, exp = self.classes[name], self.expect[name]
        cfg = self.config[name] or {}
        pool = tuple(keys)
        given = [k for k in pool if H.flip('has.' + k)]
        entries = [(k, H.value('value.' + k, Spec(('int', 'none')))) for k in given]
        w.begin('op')
        ok, r = w.attempt(cls, dict(entries))
        errors, values = [], {}
        for k, v in entries:
            f = None
            for g in exp.values():
                if g.key == k:
                    f = g
            if f is None:
                if not cfg.get('ignore_extra'):
                    errors.append((k, 'Invalid or unknown field.'))
                continue
            if v is None:
                if f.none:
                    values[f.name] = None
                else:
                    errors.append((k, 'code:field.none_disallowed'))
                continue
            if w.outcome('load', f.ident, w.outs, 'op') != 'ok':
                errors.append((k, 'load:' + f.ident))
                continue
            bad = [x for x in f.vals if w.outcome('val', x, w.vouts, 'op') != 'ok']
            errors += [(k, 'val:' + x) for x in bad]
            values[f.name] = w.result('load', f.ident, 'op')
        for f in exp.values():
            if f.key not in given:
                if f.default is not UNSET:
                    values[f.name] = f.default
                elif f.required:
                    errors.append((f.key, 'code:field.field_required'))
        if errors:
            H.check(not ok and isinstance(r, oblate.ValidationError), 'invalid data for the class is rejected')
            got = [(e.key, e.message) for e in r.errors]
            unknown = [k for k, m in errors if m == 'Invalid or unknown field.']
            H.check(sorted(k for k, _ in got) == sorted(k for k, _ in errors), 'the errors of exactly the fields of the class')
            H.check(sorted(x for x in got if x[0] not in unknown) == sorted(x for x in errors if x[0] not in unknown), 'the messages of exactly the fields of the class')
            H.cover(name + ' rejected')
        else:
            H.check(ok, 'valid data for the class is accepted')
            H.check(sorted(cls.__fields__) == sorted(exp), 'the fields of the class')
            H.check(same_state(H, state_of(r, list(exp)), {n: values.get(n, UNSET) for n in exp}), 'the values of exactly the fields of the class')
            w.begin('dump')
            w.douts = ('ok',)
            for n in exp:
                getattr(cls, n).douts = ('ok',)
            d = r.dump()
            H.check(sorted(d) == sorted(exp[n].dump_key for n in values), 'dumped under the keys of the class')
            for n in values:
                H.check(getattr(cls, n).ident == exp[n].ident, 'the field of the right class')
                H.check(H.same(d[exp[n].dump_key], w.result('dump', exp[n].ident, 'dump')), 'each field serializes itself')
            frozen = cfg.get('frozen', False)
            if not exp:
                H.cover(name + ' accepted')
                return
            n = H.choice('upd', tuple(sorted(exp)))
            w.begin('upd')
            w.outs = w.vouts = ('ok',)
            for m in exp:
                getattr(cls, m).outs = ('ok',)
            before = state_of(r, list(exp))
            ok2, r2 = w.attempt(setattr, r, n, 1)
            if frozen:
                H.check(not ok2 and isinstance(r2, oblate.FrozenError), 'the frozen configuration applies')
                H.check(same_state(H, state_of(r, list(exp)), before), 'a frozen schema keeps its values')
                H.cover('frozen')
            H.cover(name + ' accepted')


def single(H):
    """Parent, child, sibling, grandchild with redefinitions."""
    w = World(H)
    h = Hier(H, w)
    h.add('P', (), [F('a', key='x'), F('b', required=False, default=3)])
    redef = H.choice('redefine', ('none', 'same key', 'new key', 'swap', 'options', 'b key'))
    own = {'none': [F('c', none=True, required=False)], 'same key': [F('a', key='x', vals=['C.v'])], 'new key': [F('a', key='y')], 'swap': [F('a', key='b'), F('b', key='x')],
           'options': [F('a', key='x', none=True, required=False, dump_key='A')], 'b key': [F('b', key='y', required=False)]}[redef]
    h.add('C', ('P',), own, annotated=H.flip('annotated'))
    h.add('S', ('P',), [F('a', key='z', required=False)] if H.flip('sibling') else [])
    if H.thorough or H.flip('grand'):
        h.add('G', ('C',), [F('b', key='w', required=False)] if H.flip('grand.own') else [])
    h.probe(keys=('x', 'y', 'b', 'z', 'c') if H.thorough else ('x', 'y', 'b'))
    H.cover(redef)


def by_name(H):
    """Validators for inherited fields, by name or by the field of a parent, belong to the subclass (and its subclasses) only."""
    w = World(H)
    h = Hier(H, w)
    h.add('P', (), [F('a', key='x', vals=['P.v']), F('b', required=False)], validators=('b',) if H.flip('parent') else ())
    who = H.choice('who', ('a', 'b', 'both', 'a twice'))
    by = H.choice('by', ('name', 'object', 'top'))
    h.add('C', ('P',), [], validators={'a': ('a',), 'b': ('b',), 'both': ('a', 'b'), 'a twice': ('a', 'a')}[who], by=by)
    h.add('S', ('P',), [F('b', key='s', required=False)] if H.flip('sibling') else [], validators=('a',) if H.flip('sibling.v') else (), by=by)
    h.add('G', ('C',), [], validators=H.choice('grand', ((), ('a',))), by=by)
    h.probe(names=('P', 'C', 'G') if not H.thorough else None, keys=('x', 'b'))
    H.cover('probed')


def two_parents(H):
    w = World(H)
    h = Hier(H, w)
    h.add('A', (), [F('a'), F('c', key='ac', required=False)])
    h.add('B', (), [F('b', required=False), F('c', key='bc', required=False, default=9)])
    # parents without fields of their own, directly or through a class in between
    empty = H.choice('empty', (None, 'E', 'EA'))
    if empty:
        h.add('E', (), [])
    if empty == 'EA':
        h.add('EA', ('E', 'A') if H.flip('E first') else ('A', 'E'), [])
    order = H.choice('order', (('A', 'B'), ('B', 'A')))
    if empty == 'E':
        order = H.choice('with E', (('E',) + order, order + ('E',), (order[0], 'E', order[1]), ('E', order[1])))
    elif empty == 'EA':
        order = tuple('EA' if x == 'A' else x for x in order)
    h.add('M', order, H.choice('own', ([], [F('c', key='mc', required=False)], [F('d', required=False)])), validators=('b',) if 'B' in order and H.flip('check') else ())
    if H.flip('below'):
        h.add('N', ('M',), [F('a', key='na')] if H.flip('below.own') else [])
    h.probe(keys=('a', 'b', 'ac', 'bc', 'na') if H.thorough else ('a', 'bc', 'ac'))
    H.cover('probed')


def diamond(H):
    w = World(H)
    h = Hier(H, w)
    h.add('T', (), [F('a', key='x'), F('b', required=False)])
    h.add('L', ('T',), H.choice('left', ([], [F('a', key='l')], [F('c', required=False)])))
    h.add('R', ('T',), H.choice('right', ([], [F('a', key='r')], [F('b', key='rb', required=False)])), validators=('b',) if H.flip('check') else ())
    h.add('D', H.choice('order', (('L', 'R'), ('R', 'L'))), [])
    h.probe(names=('D', 'L', 'T') if not H.thorough else None, keys=('x', 'l', 'r', 'b', 'rb', 'c') if H.thorough else ('x', 'l', 'r', 'b'))
    H.cover('probed')


def config(H):
    """Inherited configuration applies unless the subclass has its own."""
    w = World(H)
    h = Hier(H, w)
    cfg = lambda n: H.choice(n, (None, dict(ignore_extra=True), dict(frozen=True), dict(ignore_extra=True, frozen=True), dict(ignore_extra=False)))
    h.add('P', (), [F('a', required=False)], config=cfg('P.config'))
    shape = H.choice('shape', ('single', 'plain first', 'plain last'))
    h.add('Q', (), [F('q', required=False)])
    if shape == 'single':
        # whatever else the class defines
        body = H.choice('C.body', (None, {'__slots__': ('x',)}, {'__doc__': 'text'}, {'Meta': type('Meta', (), {'frozen': True})}, {'method': lambda self: 1, 'CONSTANT': 3}, {'__slots__': ()},
                                   {'frozen': 1, 'ignore_extra': True}, {'config': oblate.GlobalConfig}))
        h.add('C', ('P',), [F('c', required=False)] if H.flip('C.field') else [], config=cfg('C.config'), body=body)
        h.add('G', ('C',), [], config=None)
    else:
        h.add('C', ('Q', 'P') if shape == 'plain first' else ('P', 'Q'), [], config=None)
    h.probe(keys=('a', 'u'))
    H.check(h.classes['Q'].__config__ is oblate.SchemaConfig, 'an unrelated class keeps the default configuration')
    H.cover('probed')


def deep(H):
    """A line of many classes, a field redefined at one or two of them, a validator added at another."""
    w = World(H)
    h = Hier(H, w)
    n = H.bound(5, 7)
    h.add('K0', (), [F('a', key='x'), F('b', required=False, default=1)])
    first = H.choice('first', tuple(range(1, n)))
    second = H.choice('second', (None,) + tuple(range(1, n)))
    check = H.choice('check', (None, 1, n - 1) if not H.thorough else (None,) + tuple(range(1, n)))
    for i in range(1, n):
        own = []
        if i == first:
            own.append(F('a', key='y'))
        if i == second and i != first:
            own.append(F('a', key='x', required=False) if H.flip('back') else F('b', key='z', required=False))
        own.append(F('own%d' % i, required=False))
        h.add('K%d' % i, ('K%d' % (i - 1),), own, validators=('a',) if i == check else ())
    h.probe(names=('K0', 'K%d' % (n - 1), 'K%d' % (n - 2)), keys=('x', 'y'))
    H.cover('probed')


def later(H):
    """Defining subclasses after instances exist does not change existing classes or instances."""
    w = World(H)
    d = [F('a', key='x'), F('b', required=False)]
    P = make_schema(w, d)
    s = construct_quietly(H, w, P, d, ('a',))
    before = state_of(s, ('a', 'b'))
    w.outs = w.vouts = ('ok',)
    set_outs(P, d, ('ok',))
    v = w.validator('C.v', ('value',))
    what = H.choice('what', ('redefine', 'validator by name', 'copy', 'add to copy'))
    if what == 'redefine':
        C = type(oblate.Schema)('C', (P,), {'a': HField(w, 'C.a', load_key='y', required=False), '__module__': __name__})
    elif what == 'validator by name':
        C = type(oblate.Schema)('C', (P,), {'check': validate.field('a')(v), '__module__': __name__})
    elif what == 'copy':
        C = type(oblate.Schema)('C', (P,), {'c': P.a.copy(), '__module__': __name__})
        C.c.add_validator(v)
    else:
        f = P.a.copy()
        f.add_validator(v)
        C = type(oblate.Schema)('C', (P,), {'a': f, '__module__': __name__})
    H.check(same_state(H, state_of(s, ('a', 'b')), before), 'existing instances keep their values')
    w.begin('op')
    value = H.value('value', NONNULL)
    H.check(w.attempt(s.update, {'x': value})[0], 'existing instances are updated as before')
    ok, r = w.attempt(P, {'x': value})
    H.check(ok and H.same(r.a, w.result('load', 'a', 'op')), 'the parent accepts the same data')
    H.check(not w.attempt(P, {'y': value})[0], 'and no key of the subclass')
    H.check(sorted(P.__fields__) == ['a', 'b'], 'the parent has the same fields')
    H.cover(what)


single.covers = ('none', 'same key', 'new key', 'swap', 'options', 'b key', 'P accepted', 'P rejected', 'C accepted', 'C rejected', 'S accepted', 'S rejected', 'G accepted', 'G rejected')
by_name.covers = ('P accepted', 'P rejected', 'C accepted', 'C rejected', 'G accepted', 'G rejected')
two_parents.covers = ('A accepted', 'B accepted', 'M accepted', 'M rejected', 'N accepted', 'N rejected')
deep.covers = ('probed',)
diamond.covers = ('T accepted', 'L accepted', 'D accepted', 'D rejected')
config.covers = ('P accepted', 'P rejected', 'C accepted', 'C rejected', 'G accepted', 'G rejected', 'Q rejected', 'Q accepted', 'frozen')
later.covers = ('redefine', 'validator by name', 'copy', 'add to copy')
SCENARIOS = dict(single=single, by_name=by_name, two_parents=two_parents, diamond=diamond, config=config, later=later, deep=deep)
SCENARIOS.update(
    replaced=model.run(('construct', 'update', 'assign', 'dump', 'values', 'errors', 'read', 'attribution', 'calls'), model.FIELD + model.DATA + model.USER + ('old', 'which', 'dumpkeys', 'cfg_frozen', 'cfg_style', 'typ'), (('none', 'update', 'set', 'dump'),),
                       (2, 3), ('ok', 'value'), base={'inherit': 'redefined'}, free=('old',), covers=('ok', 'failed')),
    inherited=model.run(('construct', 'update', 'assign', 'dump', 'values', 'errors', 'read', 'attribution', 'calls'), model.FIELD + model.DATA + model.USER + ('which', 'dumpkeys', 'cfg_frozen', 'cfg_style', 'typ'), (('none', 'update', 'set', 'dump'),),
                        (1, 2), ('ok', 'value'), base={'raws.a': 1, 'vals.b': 1}, free=('inherit',), covers=('ok', 'failed')),
)
