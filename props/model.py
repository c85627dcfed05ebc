"""A reference model of schemas, compared with the real thing over combinations of features.

A scenario starts from a plain configuration and lets the solver deviate from it in at most `budget` places at once, among all
features of fields, schema, data, operations and outcomes of user code; all values stay symbolic. Every combination of that many
deviations is covered. The model predicts the end of each operation, its errors, the calls of user code and the values afterwards;
a property's check looks at its own facet of the comparison only.
"""
import collections.abc
import oblate
from oblate import fields
from oblate.exceptions import FieldNotSet
from common import (ANY, EXC, NONNULL, RETURNS, UNSET, Foreign, ForeignBase, SubValueError, SubFieldError, mapping, same_value, Spec)

FAILS = ('value', 'assert', 'field', 'subvalue', 'subfield', 'empty', 'fieldempty', 'list', 'dict', 'pair', 'object')
FOREIGN = ('foreign', 'base')
KINDS = EXC
OUTCOMES = ('ok',) + FAILS + FOREIGN
# every kind of exception that is no rejection
STRANGE = ('ok',) + tuple(KINDS)
STYLES = ('plain', 'noslots', 'norepr', 'bare')
VFAILED = 'code:field.validation_failed'


class Map(collections.abc.Mapping):
    """A mapping that is not a dict."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class DictSub(dict):
    pass


class Text:
    """A message that is no string."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return 'text ' + self.s


class Model:
    def __init__(self, H, facets, features, budget, outcomes=('ok', 'value', 'foreign'), base=None, free=(), plain_init=False):
        self.H, self.facets, self.features, self.left = H, facets, features, budget
        self.outcomes, self.base, self.free, self.plain_init = outcomes, base or {}, free, plain_init
        self.op = 'init'
        self.log = []
        self.picked = {}

    # -- decisions
    def pick(self, name, options):
        """The usual option, or - within the budget of deviations, or free of charge - another one."""
        H = self.H
        if name in self.picked:
            return self.picked[name]
        what, _, op = name.partition('@')
        feature = what.split('.')[0]
        for n in (name, what, feature):
            if n in self.base:
                options = (self.base[n],) + tuple(o for o in options if o != self.base[n])
                break
        if (feature not in self.features and what not in self.features) or self.plain_init and op in ('init', 'given'):
            r = options[0]
        elif name in self.free or what in self.free or feature in self.free:
            r = H.choice(name, options)
        elif H.symbolic and self.left <= 0:
            r = options[0]
        else:
            r = H.choice(name, options)
            if r is not options[0]:
                self.left -= 1
        self.picked[name] = r
        return r

    def check(self, facet, cond, msg):
        if facet in self.facets:
            self.H.check(cond, msg)

    # -- user code
    def label(self, what, ident):
        return 'x' if self.pick('sametext', (False, True)) else what + ':' + ident

    def outcome(self, what, ident, op=None):
        if self.op == 'given':
            return 'ok'
        return self.pick('%s.%s@%s' % (what, ident, op or self.op), self.outcomes)

    def fail(self, o, label):
        if o == 'ok':
            return
        if o == 'value':
            raise ValueError(label)
        if o == 'assert':
            raise AssertionError(label)
        if o == 'field':
            raise oblate.FieldError(label)
        if o == 'subvalue':
            raise SubValueError(label)
        if o == 'subfield':
            raise SubFieldError(label)
        if o == 'empty':
            raise ValueError()
        if o == 'fieldempty':
            raise oblate.FieldError('')
        if o == 'list':
            raise oblate.FieldError([label + '.0', label + '.1', label + '.2'])
        if o == 'dict':
            raise oblate.FieldError({'k': [label]})
        if o == 'pair':
            raise AssertionError(label, 1)
        if o == 'object':
            raise oblate.FieldError(Text(label))
        raise KINDS[o](label)

    def messages(self, o, label):
        if o in ('value', 'assert', 'field', 'subvalue', 'subfield'):
            return [label]
        if o == 'empty':
            return [VFAILED]
        if o == 'fieldempty':
            return ['']
        if o == 'list':
            return [label + '.0', label + '.1', label + '.2']
        if o == 'dict':
            return [{'k': [label]}]
        if o == 'pair':
            return ["('%s', 1)" % label]
        if o == 'object':
            return ['text ' + label]
        return []

    def result(self, what, ident, op=None):
        return self.H.value('res.%s.%s@%s' % (what, ident, op or self.op), ANY)

    def validator(self, ident):
        m = self

        def check(schema, value, context):
            m.log.append(('val', ident, value, context, schema, context.is_update(), context.schema.context.is_initialized(), context.value))
            context.state.setdefault('seen', []).append(ident)
            m.fail(m.outcome('val', ident), m.label('val', ident))
            return RETURNS[len(m.log) % len(RETURNS)]
        return check


class MField(fields.Field):
    def __init__(self, m, ident, **kw):
        self.m, self.ident = m, ident
        super().__init__(**kw)

    def value_load(self, value, context):
        m = self.m
        m.log.append(('load', self.ident, value, context, context.schema, context.is_update(), context.schema.context.is_initialized(), context.value))
        context.state.setdefault('seen', []).append(self.ident)
        m.fail(m.outcome('load', self.ident), m.label('load', self.ident))
        return m.result('load', self.ident)

    def value_dump(self, value, context):
        m = self.m
        m.log.append(('dump', self.ident, value, context, context.schema, None, context.schema.context.is_initialized(), context.value))
        m.fail(m.outcome('dump', self.ident), m.label('dump', self.ident))
        return m.result('dump', self.ident)

    def format_error(self, code, context):
        return formatted(self.m, self, code, context)


class MObject(fields.Object):
    def __init__(self, m, ident, cls, **kw):
        self.m, self.ident = m, ident
        super().__init__(cls, **kw)

    def format_error(self, code, context):
        return formatted(self.m, self, code, context)


def formatted(m, field, code, context):
    try:
        v = context.get_value()
    except ValueError:
        v = UNSET
    m.log.append(('format', field.ident, code, v, context.schema, context.field is field and context.error_code == code))
    text = 'code:%s' % (code,)
    how = m.pick('format.' + field.ident, ('text', 'error', 'errors'))
    if how == 'error':
        return oblate.FieldError(text)
    if how == 'errors':
        return oblate.FieldError([text, text + '!'])
    return text


class State:
    def __init__(self):
        self.inner = []


class D:
    """Description of a field."""

    def __init__(self, ident):
        self.ident = self.name = ident
        self.typ = 'plain'


class Inner:
    """Expected nested instance: `i` is 'loaded' in the operation, 'null', the 'default' or 'unset'."""

    def __init__(self, op, given=None, i='loaded'):
        self.op, self.given, self.i = op, given, i


class Expect:
    def __init__(self):
        self.raises = []        # acceptable other exceptions: ('frozen', entity name) | ('foreign', label)
        self.errors = []        # (key, description or None, message, has context)
        self.order = {}         # key -> messages of validators in order
        self.values = {}        # ident -> value
        self.calls = []         # ('load'|'val'|'dump', ident, value)
        self.formats = []       # (ident, code, value)
        self.nested = {}        # key -> expected inner errors [(key, ident or None, message, has context)]

    @property
    def ok(self):
        return not self.raises and not self.errors


class Case:
    """One run: a class built from picks, instances, operations compared with the model."""

    def __init__(self, H, m):
        self.H, self.m = H, m
        m.cases = self
        self.build()

    # -- construction of the class
    def build(self):
        H, m = self.H, self.m
        a, b, c = D('a'), D('b'), D('c')
        b.typ = m.pick('typ', ('plain', 'object'))
        for d in (a, b):
            d.none = m.pick('none.' + d.ident, (False, True))
            d.required = m.pick('required.' + d.ident, (d is a, d is not a))
            d.dkind = m.pick('default.' + d.ident, ('no', 'const', 'null', 'callable', 'class'))
            if d.typ == 'object' and d.dkind in ('callable', 'class'):
                d.dkind = 'const'
            d.frozen = m.pick('frozen.' + d.ident, (False, True))
            d.raws = tuple('r%s%d' % (d.ident, i) for i in range(m.pick('raws.' + d.ident, (0, 1, 2) if d is a else (0, 1))))
            d.vals = tuple('v%s%d' % (d.ident, i) for i in range(m.pick('vals.' + d.ident, (0, 1, 2) if d is a else (0, 1))))
        c.none, c.required, c.dkind, c.frozen, c.raws, c.vals = False, False, 'no', False, (), ()
        k = m.pick('keys', ('same', 'other', 'cross', 'chain'))
        a.key, b.key, c.key = {'same': ('a', 'b', 'c'), 'other': ('ka', 'kb', 'c'), 'cross': ('b', 'a', 'c'), 'chain': ('b', 'kb', 'c')}[k]
        k = m.pick('dumpkeys', ('same', 'other', 'cross', 'load'))
        a.dump_key, b.dump_key, c.dump_key = {'same': ('a', 'b', 'c'), 'other': ('da', 'db', 'c'), 'cross': ('b', 'a', 'c'),
                                              'load': (a.key, b.key, 'c')}[k]
        self.descr = [a, b, c]
        self.ignore = m.pick('cfg_ignore', (False, True))
        self.frozen = m.pick('cfg_frozen', (False, True))
        inherit = m.pick('inherit', ('no', 'parent', 'redefined', 'grandparent', 'mixed'))
        config = self.config(self.ignore, self.frozen, m.pick('cfg_style', STYLES))
        self.calls = []
        case = self

        def preprocess_data(self, data):
            case.hooks.append(('pre', self, data))
            return data

        def __schema_post_init__(self):
            case.hooks.append(('post', self, self.context.is_initialized(), case.state(self)))
        common = dict(__module__=__name__, preprocess_data=preprocess_data, __schema_post_init__=__schema_post_init__)
        if config:
            common['Config'] = type('Config', (oblate.SchemaConfig,), config)
        self.hooks = []
        self.given_default = None
        if b.typ == 'object':
            ikw = m.pick('init_kwargs', ('no', 'ignore', 'state', 'null', 'refuse', 'both'))
            self.init_kwargs = {'no': None, 'ignore': {'ignore_extra': True}, 'state': {'state': 'st'}, 'null': {'state': None},
                                'refuse': {'ignore_extra': False}, 'both': {'ignore_extra': True, 'state': 'st'}}[ikw]
            icfg = m.pick('inner_cfg', ('plain', 'ignore', 'frozen', 'noslots', 'norepr'))
            self.inner_ignore = (self.init_kwargs or {}).get('ignore_extra', icfg == 'ignore')
            self.inner_none = m.pick('inner_none', (False, True))
            self.inner_raws = ('ri',) if m.pick('inner_raws', (0, 1)) else ()
            self.inner_vals = ('vi',) if m.pick('inner_vals', (0, 1)) else ()
            self.inner = m.pick('inner', ('required', 'optional', 'default'))
            self.inner_kw = {'required': {}, 'optional': dict(required=False), 'default': dict(default=5)}[self.inner]
            fi = MField(m, 'i', load_key='ki', none=self.inner_none, **self.inner_kw)
            for v in self.inner_vals:
                fi.add_validator(m.validator(v))
            for v in self.inner_raws:
                fi.add_validator(m.validator(v), raw=True)
            ns = dict(i=fi, j=MField(m, 'j', required=False, none=True), __module__=__name__)
            config2 = self.config(icfg == 'ignore', icfg == 'frozen', icfg if icfg in STYLES else 'plain')
            if config2:
                ns['Config'] = type('Config', (oblate.SchemaConfig,), config2)
            self.Inner = type(oblate.Schema)('Inner', (oblate.Schema,), ns)
        meta = type(oblate.Schema)
        if inherit == 'no':
            ns = dict(common)
            for d in self.descr:
                ns[d.name] = self.field(d)
            self.cls = meta('S', (oblate.Schema,), ns)
        else:
            up = dict(common)
            up['a'] = self.field(a) if inherit != 'redefined' else self.replaced()
            if inherit == 'grandparent':
                up['b'] = self.field(b)
            base = meta('Base', (oblate.Schema,), up)
            bases = (base,)
            if inherit == 'grandparent':
                bases = (meta('Middle', (base,), dict(__module__=__name__)),)
            elif inherit == 'mixed':
                bases = (meta('Other', (oblate.Schema,), dict(__module__=__name__, b=self.field(b), __slots__=())), base)
            ns = dict(__module__=__name__, c=self.field(c))
            if inherit == 'redefined':
                ns['a'] = self.field(a)
            if inherit in ('parent', 'redefined'):
                ns['b'] = self.field(b)
            if inherit == 'mixed':
                ns.update(preprocess_data=preprocess_data, __schema_post_init__=__schema_post_init__)
            self.cls = meta('S', bases, ns)

    def config(self, ignore, frozen, style):
        out = {}
        if ignore:
            out['ignore_extra'] = True
        if frozen:
            out['frozen'] = True
        if style in ('noslots', 'bare'):
            out['slotted'] = False
        if style in ('norepr', 'bare'):
            out['add_repr'] = False
        return out

    def replaced(self):
        """A field of the parent that the class replaces."""
        m = self.m
        how = m.pick('old', ('default', 'required', 'frozen', 'none', 'dumpkey', 'raw', 'validator', 'samekey', 'object'))
        kw = {'default': dict(default=1), 'frozen': dict(frozen=True, default=1), 'none': dict(none=True, required=False),
              'dumpkey': dict(dump_key='olddump', default=None)}.get(how, {})
        if how != 'samekey':
            kw['load_key'] = 'old'
        if how == 'object':
            return fields.Object(type(oblate.Schema)('Was', (oblate.Schema,), dict(z=fields.Any(), __module__=__name__)), **kw)
        f = MField(m, 'old', **kw)
        if how in ('raw', 'validator'):
            f.add_validator(m.validator('old'), raw=how == 'raw')
        return f

    def field(self, d):
        H, m = self.H, self.m
        kw = dict(none=d.none, required=d.required, frozen=d.frozen)
        if d.dkind == 'const':
            kw['default'] = self.default(d)
        elif d.dkind == 'null':
            kw['default'] = None
        elif d.dkind == 'callable':
            def default(ctx, field):
                self.calls.append((d.ident, ctx, field))
                return m.result('default', d.ident)
            kw['default'] = default
        elif d.dkind == 'class':
            case = self

            class Default:
                def __init__(self, ctx, field):
                    case.calls.append((d.ident, ctx, field))
            d.cls = kw['default'] = Default
        if d.key != d.name:
            kw['load_key'] = d.key
        if d.dump_key != d.name:
            kw['dump_key'] = d.dump_key
        if d.typ == 'object':
            if self.init_kwargs is not None:
                kw['init_kwargs'] = self.init_kwargs
            f = MObject(m, d.ident, self.Inner, **kw)
        else:
            f = MField(m, d.ident, **kw)
        for v in d.vals:
            f.add_validator(m.validator(v))
        for v in d.raws:
            f.add_validator(m.validator(v), raw=True)
        return f

    def default(self, d):
        H, m = self.H, self.m
        if d.typ == 'plain':
            return H.value('default.' + d.ident, Spec(('bool', 'int', 'str')))
        if self.given_default is None:
            op, m.op = m.op, 'given'
            self.given_default = self.Inner({'ki': H.value('default.' + d.ident, NONNULL)})
            m.op = op
        return self.given_default

    def find(self, key):
        for d in self.descr:
            if d.key == key:
                return d
        return None

    # -- inputs
    def value(self, d):
        """An input value for the field in the current operation."""
        H, m = self.H, self.m
        if d.typ == 'object':
            k = m.pick('obj.%s@%s' % (d.ident, m.op), ('mapping', 'none', 'instance', 'empty', 'extra', 'garbage', 'full', 'null', 'map', 'null full'))
            v = H.value('in.%s@%s' % (d.ident, m.op), NONNULL)
            if k == 'mapping':
                return {'ki': v}
            if k == 'full':
                return {'ki': v, 'j': None}
            if k == 'null':
                return {'ki': None}
            if k == 'null full':
                return {'j': None, 'ki': None}
            if k == 'map':
                return Map({'ki': v})
            if k == 'none':
                return None
            if k == 'instance':
                op, m.op = m.op, 'given'
                r = self.Inner({'ki': v})
                m.op = op
                del m.log[:]
                return r
            if k == 'empty':
                return {}
            if k == 'extra':
                return {'ki': v, 'zz': 1}
            return v
        if m.pick('value.%s@%s' % (d.ident, m.op), ('sym', 'none')) == 'none':
            return None
        return H.value('in.%s@%s' % (d.ident, m.op), NONNULL)

    def entries(self, update=False):
        """The data of the current operation as pairs."""
        H, m = self.H, self.m
        a, b, c = self.descr
        out = []
        if m.pick('has.a@' + m.op, (True, False)):
            out.append((a.key, self.value(a)))
        if m.pick('has.b@' + m.op, (True, False)):
            out.append((b.key, self.value(b)))
        if m.pick('has.c@' + m.op, (False, True)):
            out.append((c.key, self.value(c)))
        if m.pick('order@' + m.op, (False, True)):
            out.reverse()
        u = m.pick('unknown@' + m.op, ('no', 'last', 'first', 'second', 'two', 'null', 'name', 'four'))
        x = H.value('x@' + m.op, NONNULL)
        if u == 'last':
            out.append(('zz', x))
        elif u == 'first':
            out.insert(0, ('zz', x))
        elif u == 'second':
            out.insert(1, ('zz', x))
        elif u == 'two':
            out.insert(0, ('zz', x))
            out.append(('yy', x))
        elif u == 'four':
            out[1:1] = [('zz', x), ('yy', x), ('', x), ('xx', None)]
        elif u == 'null':
            out.append(('zz', None))
        elif u == 'name':
            # an attribute name that is no load key
            n = next((d.name for d in self.descr if self.find(d.name) is None), '')
            out.insert(0, (n, x))
        return out

    def data(self, entries):
        k = self.m.pick('data@' + self.m.op, ('dict', 'map', 'sub'))
        return {'dict': dict, 'map': lambda e: Map(dict(e)), 'sub': DictSub}[k](entries)

    def ignore_arg(self):
        """(keyword arguments, effective setting)"""
        k = self.m.pick('ignore_arg@' + self.m.op, ('absent', True, False))
        return ({}, self.ignore) if k == 'absent' else (dict(ignore_extra=k), k)

    # -- the model
    def expect_value(self, x, d, value):
        """Predicts loading one value. Any one of several exceptions of other kinds may be the one let through."""
        m, H = self.m, self.H
        verrs = []

        def run(vs, v):
            for n in vs:
                x.calls.append(('val', n, v))
                o = m.outcome('val', n)
                if o in KINDS:
                    x.raises.append((o, m.label('val', n)))
                if o == 'empty':
                    x.formats.append((d.ident, 'field.validation_failed', v))
                verrs.extend(self.fmt(d, m.messages(o, m.label('val', n))))
        run(d.raws, value)
        if value is None:
            if not d.none:
                x.formats.append((d.ident, 'field.none_disallowed', None))
                x.errors += [(d.key, d, t, True) for t in self.fmt(d, ['code:field.none_disallowed'])]
            else:
                x.values[d.ident] = None
        elif d.typ == 'object':
            self.expect_object(x, d, value)
            if d.ident in x.values:
                run(d.vals, x.values[d.ident])
        else:
            x.calls.append(('load', d.ident, value))
            o = m.outcome('load', d.ident)
            if o in KINDS:
                x.raises.append((o, m.label('load', d.ident)))
            elif o != 'ok':
                if o == 'empty':
                    x.formats.append((d.ident, 'field.validation_failed', value))
                x.errors += [(d.key, d, t, True) for t in self.fmt(d, m.messages(o, m.label('load', d.ident)))]
            else:
                x.values[d.ident] = m.result('load', d.ident)
                run(d.vals, x.values[d.ident])
        x.order[d.key] = verrs
        x.errors += [(d.key, d, t, True) for t in verrs]

    def fmt(self, d, texts):
        """Messages after format_error of the field."""
        how = self.m.pick('format.' + d.ident, ('text', 'error', 'errors'))
        out = []
        for t in texts:
            out.append(t)
            if how == 'errors' and isinstance(t, str) and t.startswith('code:'):
                out.append(t + '!')
        return out

    def expect_object(self, x, d, value):
        m, H = self.m, self.H
        if isinstance(value, self.Inner):
            x.values[d.ident] = Inner('given', value)
            return
        if not isinstance(value, (dict, Map)):
            x.formats.append((d.ident, 'object.invalid_datatype', value))
            x.errors += [(d.key, d, t, True) for t in self.fmt(d, ['code:object.invalid_datatype'])]
            return
        inner = []
        i = D('i')

        def run(vs, v):
            for n in vs:
                x.calls.append(('val', n, v))
                o = m.outcome('val', n)
                if o in KINDS:
                    x.raises.append((o, m.label('val', n)))
                if o == 'empty':
                    x.formats.append(('i', 'field.validation_failed', v))
                inner.extend(('ki', 'i', t, value['ki']) for t in self.fmt(i, m.messages(o, m.label('val', n))))
        kind = 'loaded'
        if 'ki' in value:
            v = value['ki']
            run(self.inner_raws, v)
            if v is None:
                kind = 'null'
                if self.inner_none:
                    pass
                else:
                    x.formats.append(('i', 'field.none_disallowed', None))
                    inner += [('ki', 'i', t, v) for t in self.fmt(i, ['code:field.none_disallowed'])]
            else:
                x.calls.append(('load', 'i', v))
                o = m.outcome('load', 'i')
                if o in KINDS:
                    x.raises.append((o, m.label('load', 'i')))
                    return
                if o == 'empty':
                    x.formats.append(('i', 'field.validation_failed', v))
                inner += [('ki', 'i', t, v) for t in self.fmt(i, m.messages(o, m.label('load', 'i')))]
                if o == 'ok':
                    run(self.inner_vals, m.result('load', 'i'))
        elif self.inner == 'required':
            x.formats.append(('i', 'field.field_required', UNSET))
            inner += [('ki', 'i', t, UNSET) for t in self.fmt(i, ['code:field.field_required'])]
        else:
            kind = 'default' if self.inner == 'default' else 'unset'
        if 'zz' in value and not self.inner_ignore:
            inner.append(('zz', None, None, UNSET))
        if x.raises:
            return
        if inner:
            x.nested[d.key] = inner
            x.errors.append((d.key, d, 'nested', True))
        else:
            x.values[d.ident] = Inner(m.op, i=kind)

    def expect_load(self, entries, ignore, update):
        m = self.m
        x = Expect()
        seen = []
        if update and self.frozen:
            x.raises.append(('frozen', 'schema'))
            return x
        for key, value in entries:
            d = self.find(key)
            if d is None:
                if not ignore:
                    x.errors.append((key, None, None, False))
                continue
            seen.append(d)
            if update and d.frozen:
                x.raises.append(('frozen', d.ident))
                continue
            self.expect_value(x, d, value)
        if not update:
            for d in self.descr:
                if d in seen:
                    continue
                if d.dkind == 'const':
                    v = self.default(d)
                    x.values[d.ident] = v if d.typ == 'plain' else Inner('given', v)
                elif d.dkind == 'null':
                    x.values[d.ident] = None
                elif d.dkind == 'callable':
                    x.values[d.ident] = m.result('default', d.ident)
                elif d.dkind == 'class':
                    x.values[d.ident] = d.cls
                elif d.required:
                    x.formats.append((d.ident, 'field.field_required', UNSET))
                    x.errors += [(d.key, d, t, False) for t in self.fmt(d, ['code:field.field_required'])]
        return x

    # -- comparison
    def state(self, s):
        out = {}
        for d in self.descr:
            try:
                out[d.ident] = getattr(s, d.name)
            except FieldNotSet:
                out[d.ident] = UNSET
        return out

    def same(self, got, want):
        """The value of a field is the expected one."""
        H = self.H
        if isinstance(want, Inner):
            if want.given is not None:
                return got is want.given
            if not isinstance(got, self.Inner):
                return False
            i = got.get_value_for('i', UNSET)
            if want.i in ('unset', 'null', 'default'):
                return i is {'unset': UNSET, 'null': None, 'default': 5}[want.i]
            return H.same(i, self.m.result('load', 'i', want.op))
        if isinstance(want, type):
            return isinstance(got, want)
        return same_value(H, got, want)

    def same_states(self, got, want):
        return self.H.And(*[self.same(got[d.ident], want.get(d.ident, UNSET)) for d in self.descr])

    def attempt(self, f, *a, **k):
        try:
            return True, f(*a, **k)
        except Exception as e:
            return False, e
        except (ForeignBase, KeyboardInterrupt, SystemExit) as e:
            return False, e

    def begin(self, op):
        self.m.op = op
        del self.m.log[:]
        del self.hooks[:]
        del self.calls[:]

    def compare_end(self, facet, x, ok, r, what):
        """The kind of end; 'ok', 'failed' or 'raised'."""
        H, m = self.H, self.m
        if x.raises:
            H.cover('raised')
            good = False
            for kind, name in x.raises:
                if kind == 'frozen':
                    if isinstance(r, oblate.FrozenError):
                        good = good or r.entity is (self.target if name == 'schema' else getattr(self.cls, name))
                elif type(r) is KINDS[kind]:
                    good = good or r.args == (name,)
            m.check(facet, not ok and good, what + ' lets the exception of another kind through, got ' + type(r).__name__)
            return 'raised'
        if x.errors:
            H.cover('failed')
            m.check(facet, not ok and isinstance(r, oblate.ValidationError), what + ' must fail with a ValidationError, got ' + type(r).__name__)
            return 'failed' if not ok and isinstance(r, oblate.ValidationError) else 'wrong'
        H.cover('ok')
        m.check(facet, ok, what + ' must succeed, got ' + type(r).__name__)
        return 'ok' if ok else 'wrong'

    def compare_errors(self, r, x, target):
        """The reported errors are the predicted ones, rightly attributed."""
        m, H = self.m, self.H
        cls = self.cls
        got = list(r.errors)
        want = list(x.errors)
        raw = r.raw()
        keys = []
        for k, _, _, _ in want:
            if k not in keys:
                keys.append(k)
        m.check('errors', sorted(raw) == sorted(keys) and len(got) == len(want), 'one error per failure')
        for k in keys:
            mine = [w for w in want if w[0] == k]
            if mine[0][1] is None:
                m.check('errors', len(raw.get(k, ())) == 1, 'one error for an unknown key')
                continue
            texts = [w[2] for w in mine if w[2] != 'nested']
            found = [t for t in raw.get(k, ()) if not self.is_nested(t, k, x)]
            m.check('errors', sorted(map(repr, texts)) == sorted(map(repr, found)), 'exactly the messages of the failures of the key')
            order = x.order.get(k, [])
            seen = [t for t in found if t in order]
            if not any(t in order for t in texts[:len(texts) - len(order)]):
                m.check('errors', seen == order, 'validators in order, raw ones first')
            if k in x.nested:
                self.compare_nested(r, k, x, target)
        text = str(r)
        m.check('text', all(k in text for k in keys), 'the text names all keys')
        m.check('text', all(w[2] in text for w in want if isinstance(w[2], str) and w[2] not in ('nested', '')), 'and messages')
        m.check('attribution', r.schema is target or target is None and type(r.schema) is cls, 'the validation error carries the schema')
        schema = r.schema
        for e in got:
            d = self.find(e.key)
            f = None if d is None else getattr(cls, d.name)
            m.check('attribution', e.field is f, 'the field of the error')
            m.check('attribution', e.schema is schema, 'the schema of the error')
            ctx = e.context is not None
            wants = [w[3] for w in want if w[0] == e.key]
            m.check('attribution', bool(wants) and ctx == wants[0], 'a context exactly if a value was processed')
            if ctx and f is not None:
                m.check('attribution', e.context.field is f and e.context.schema is schema, 'the context of that value')
                m.check('attribution', self.H.same(e.context.value, self.given.get(e.key)), 'with the value given')

    def is_nested(self, t, k, x):
        return k in x.nested and isinstance(t, dict) and ('ki' in t or 'zz' in t or 'j' in t)

    def compare_nested(self, r, k, x, target):
        m = self.m
        inner = x.nested[k]
        raws = [t for t in r.raw()[k] if self.is_nested(t, k, x)]
        m.check('errors', len(raws) == 1, 'nested errors, once')
        if len(raws) != 1:
            return
        want = {}
        for key, _, t, _ in inner:
            want.setdefault(key, []).append(t)
        m.check('errors', sorted(want) == sorted(raws[0]), 'nested under all inner keys')
        for key in want:
            if key != 'zz':
                m.check('errors', sorted(map(repr, raws[0].get(key))) == sorted(map(repr, want[key])), 'with all inner messages')
            else:
                m.check('errors', len(raws[0].get(key, ())) == 1, 'with the unknown inner key')
        for e in r.errors:
            if isinstance(e.message, dict) and e.key == k and any(q in e.message for q in ('ki', 'j', 'zz')):
                for key, es in e.message.items():
                    for y in es:
                        if not isinstance(y, oblate.FieldError):
                            continue
                        m.check('attribution', y.key == key and y.field is (self.Inner.i if key == 'ki' else self.Inner.j if key == 'j' else None), 'inner key and field')
                        m.check('attribution', type(y.schema) is self.Inner, 'inner schema')
                        vs = [w[3] for w in inner if w[0] == key]
                        if key != 'zz' and vs and vs[0] is not UNSET:
                            m.check('attribution', y.context is not None and y.context.field is y.field and y.context.schema is y.schema
                                    and self.H.same(y.context.value, vs[0]), 'inner context')

    def compare_calls(self, x, target, update, given):
        """User code ran exactly as predicted, with truthful contexts."""
        m, H = self.m, self.H
        calls = [c for c in m.log if c[0] in ('load', 'val', 'dump')]
        want = list(x.calls)
        m.check('calls', sorted((c[0], c[1]) for c in calls) == sorted((c[0], c[1]) for c in want), 'every call exactly once')
        for kind, ident, v in want:
            for c in calls:
                if c[:2] == (kind, ident):
                    m.check('calls', self.same(c[2], v), 'with the right value')
        states = {}
        for c in calls:
            ident = c[1]
            ctx = c[3]
            inner = ident in ('i', 'j', 'ri', 'vi')
            m.check('context', ctx.schema is c[4], 'the schema the code was called with')
            if inner and ident != 'j':
                m.check('context', ctx.field is self.Inner.i and type(ctx.schema) is self.Inner, 'the inner field and schema')
                if c[0] != 'dump':
                    m.check('context', not c[5] and not c[6], 'the inner schema is under construction')
            if not inner:
                d = [d for d in self.descr if d.ident == ident or ident in d.raws or ident in d.vals][0]
                m.check('context', ctx.field is getattr(self.cls, d.name), 'the field')
                if c[0] != 'dump':
                    m.check('context', ctx.schema is target or target is None and type(ctx.schema) is self.cls, 'the schema')
                    m.check('context', H.same(c[7], given.get(d.key)), 'the raw value')
                    m.check('context', c[5] == update, 'an update exactly after construction')
                    m.check('context', c[6] == update, 'initialized exactly after construction')
                    st = states.setdefault(d.ident, ctx.state)
                    m.check('context', st is ctx.state, 'one state per value')
                    m.check('context', all(o is not st for n, o in states.items() if n != d.ident), 'not shared with other values')
                    m.check('context', all(n == d.ident or n in d.raws or n in d.vals for n in st['seen']), 'used by this value only')

    def compare_formats(self, x, target):
        m, H = self.m, self.H
        got = [c for c in m.log if c[0] == 'format']
        m.check('format', sorted((c[1], c[2]) for c in got) == sorted((f[0], f[1]) for f in x.formats), 'asked once per failure, with its code')
        for c in got:
            m.check('format', c[5], 'its field and code in the context')
            m.check('format', c[1] in ('i', 'j') or c[4] is target or target is None and type(c[4]) is self.cls, 'the schema in the context')
            mine = [f for f in x.formats if f[:2] == (c[1], c[2])]
            if len(mine) == 1:
                m.check('format', self.same(c[3], mine[0][2]), 'the offending value in the context')

    # -- operations
    def construct(self, op='init'):
        """Constructs; the instance or None."""
        H, m = self.H, self.m
        self.begin(op)
        es = self.entries()
        kw, ignore = self.ignore_arg()
        st = m.pick('state@' + op, ('none', 'dict', 'falsy', 'list', 'set', 'object', 'data', 'empty'))
        data = self.data(es)
        state = {'none': None, 'dict': {'p': [1]}, 'falsy': '', 'list': [[1]], 'set': {1, 2}, 'object': State(), 'data': data, 'empty': {}}[st]
        if st != 'none':
            kw['state'] = state
        self.given = dict(es)
        self.target = None
        ok, r = self.attempt(self.cls, data, **kw)
        x = self.expect_load(es, ignore, False)
        end = self.compare_end('construct', x, ok, r, 'construction')
        m.check('inputs', list(data.items()) == es if len(data) == len(es) else False, 'the data is left alone')
        if end == 'failed':
            self.compare_errors(r, x, None)
        if end in ('ok', 'failed'):
            self.compare_calls(x, r if ok else None, False, self.given)
            self.compare_formats(x, r if ok else None)
            absent = [d for d in self.descr if d.key not in self.given and d.dkind in ('callable', 'class')]
            m.check('values', sorted(c[0] for c in self.calls) == sorted(d.ident for d in absent), 'default callables of absent fields, once')
            for ident, ctx, f in self.calls:
                m.check('values', f is getattr(self.cls, ident) and (not ok or ctx is r.context), 'with schema context and field')
        pre = [h for h in self.hooks if h[0] == 'pre']
        post = [h for h in self.hooks if h[0] == 'post']
        m.check('hooks', len(pre) == 1 and pre[0][2] is data, 'preprocessed once, the data given')
        m.check('hooks', len(post) == (1 if end == 'ok' else 0), 'post-initialization exactly after success')
        if end == 'ok':
            m.check('hooks', pre[0][1] is r and post[0][1] is r and post[0][2], 'of the instance, initialized')
            m.check('hooks', self.same_states(post[0][3], x.values), 'when all values are set')
            got = self.state(r)
            m.check('values', self.same_states(got, x.values), 'every field holds its value, its default or nothing')
            for d in self.descr:
                if isinstance(x.values.get(d.ident), type):
                    x.values[d.ident] = got[d.ident]
                if isinstance(x.values.get(d.ident), Inner) and got[d.ident] is not UNSET:
                    if x.values[d.ident].given is None:
                        m.check('values', got[d.ident].context.state == (self.init_kwargs or {}).get('state'), 'the configured arguments')
                    x.values[d.ident] = got[d.ident]
            m.check('context', r.context.is_initialized() and r.context.schema is r and r.context.state is state, 'the schema context')
            self.read(r, x.values)
            return r, x.values
        return None, None

    def read(self, s, values):
        """get_value_for by name and load key."""
        m, H = self.m, self.H
        for name in ('a', 'b', 'c', 'ka', 'kb', 'zz'):
            d = next((d for d in self.descr if d.name == name), None) or self.find(name)
            for dflt in (UNSET, None, 'dflt'):
                ok, r = self.attempt(s.get_value_for, name) if dflt is UNSET else self.attempt(s.get_value_for, name, dflt)
                if d is None:
                    m.check('read', not ok and isinstance(r, RuntimeError), 'no such field')
                elif values.get(d.ident, UNSET) is UNSET:
                    if dflt is UNSET:
                        m.check('read', not ok and isinstance(r, FieldNotSet) and r.field is getattr(self.cls, d.name) and r.schema is s
                                and r.field_name == name, 'not set')
                    else:
                        m.check('read', ok and (r is None if dflt is None else H.same(r, dflt)), 'the default')
                else:
                    m.check('read', ok and self.same(r, values[d.ident]), 'the value')

    def settle(self, s, x, old, end, facet):
        """Values after an update or assignment; what they are now."""
        m = self.m
        got = self.state(s)
        want = dict(old)
        if end == 'ok':
            want.update(x.values)
        m.check(facet, self.same_states(got, want), 'applied completely' if end == 'ok' else 'nothing changed')
        for d in self.descr:
            if isinstance(want.get(d.ident), Inner) and got[d.ident] is not UNSET:
                if end == 'ok' and want[d.ident].given is None and d.ident in x.values:
                    m.check(facet, got[d.ident].context.state == (self.init_kwargs or {}).get('state'), 'the configured arguments')
                want[d.ident] = got[d.ident]
        return want

    def update(self, s, old, op='op'):
        m = self.m
        self.begin(op)
        es = self.entries(True)
        kw, ignore = self.ignore_arg()
        data = self.data(es)
        self.given = dict(es)
        self.target = s
        ok, r = self.attempt(s.update, data, **kw)
        x = self.expect_load(es, ignore, True)
        end = self.compare_end('update', x, ok, r, 'update')
        m.check('inputs', list(data.items()) == es if len(data) == len(es) else False, 'the data is left alone')
        if end == 'failed':
            self.compare_errors(r, x, s)
        if end in ('ok', 'failed'):
            self.compare_calls(x, s, True, self.given)
            self.compare_formats(x, s)
        m.check('hooks', not self.hooks, 'no hook runs')
        m.check('context', s.context.is_initialized(), 'stays initialized')
        new = self.settle(s, x, old, end, 'update')
        self.read(s, new)
        return new

    def assign(self, s, old, op='op'):
        m = self.m
        self.begin(op)
        d = self.descr[{'a': 0, 'b': 1, 'c': 2}[m.pick('which@' + op, ('a', 'b', 'c'))]]
        v = self.value(d)
        self.given = {d.key: v}
        self.target = s
        ok, r = self.attempt(setattr, s, d.name, v)
        x = self.expect_load([(d.key, v)], False, True)
        end = self.compare_end('assign', x, ok, r, 'assignment')
        if end == 'failed':
            self.compare_errors(r, x, s)
        if end in ('ok', 'failed'):
            self.compare_calls(x, s, True, self.given)
            self.compare_formats(x, s)
        m.check('hooks', not self.hooks, 'no hook runs')
        new = self.settle(s, x, old, end, 'assign')
        self.read(s, new)
        return new

    def dump(self, s, old, op='op'):
        m, H = self.m, self.H
        self.begin(op)
        sel = m.pick('select@' + op, ('all', 'include a', 'include b', 'include nothing', 'include keys', 'exclude a', 'exclude b', 'exclude nothing',
                                      'exclude keys', 'include all', 'exclude all', 'both'))
        names = {'a': ['a'], 'b': ['b'], 'nothing': [], 'keys': [d.key for d in self.descr] + ['zz'], 'all': ['c', 'b', 'a', 'a']}
        kw = {}
        if sel == 'both':
            kw = dict(include=['a'], exclude=[])
        elif sel != 'all':
            how, what = sel.split(' ')
            kw = {how: m.pick('container@' + op, (list, tuple, set, frozenset))(names[what])}
        kw0 = {k: list(v) for k, v in kw.items()}
        ok, r = self.attempt(s.dump, **kw)
        if sel == 'both':
            m.check('dump', not ok and isinstance(r, TypeError), 'include and exclude are exclusive')
            H.cover('raised')
            return old
        chosen = [d for d in self.descr if sel == 'all' or ('include' in kw and d.name in kw['include'])
                  or ('exclude' in kw and d.name not in kw['exclude'])]
        x = Expect()
        out = {}
        self.given = {}
        for d in chosen:
            v = old.get(d.ident, UNSET)
            if v is UNSET:
                continue
            self.given[d.key] = v
            if d.typ == 'object':
                if v is None:
                    out[d.dump_key] = None
                else:
                    inner = []
                    res = {}
                    for n, iv in (('i', v.get_value_for('i', UNSET)), ('j', v.get_value_for('j', UNSET))):
                        if iv is UNSET:
                            continue
                        x.calls.append(('dump', n, iv))
                        o = m.outcome('dump', n)
                        if o in KINDS:
                            x.raises.append((o, m.label('dump', n)))
                        if o == 'empty':
                            x.formats.append((n, 'field.validation_failed', iv))
                        inner += [({'i': 'ki', 'j': 'j'}[n], n, t, iv) for t in self.fmt(D(n), m.messages(o, m.label('dump', n)))]
                        res[n] = m.result('dump', n)
                    if x.raises:
                        continue
                    if inner:
                        x.nested[d.key] = inner
                        x.errors.append((d.key, d, 'nested', True))
                    out[d.dump_key] = res
                continue
            x.calls.append(('dump', d.ident, v))
            o = m.outcome('dump', d.ident)
            if o in KINDS:
                x.raises.append((o, m.label('dump', d.ident)))
            elif o != 'ok':
                if o == 'empty':
                    x.formats.append((d.ident, 'field.validation_failed', v))
                x.errors += [(d.key, d, t, True) for t in self.fmt(d, m.messages(o, m.label('dump', d.ident)))]
            else:
                out[d.dump_key] = m.result('dump', d.ident)
        self.target = s
        end = self.compare_end('dump', x, ok, r, 'dump')
        if end == 'ok':
            m.check('dump', self.same_out(r, out), 'exactly the selected set fields under their dump keys')
        elif end == 'failed':
            self.compare_errors(r, x, s)
        if end in ('ok', 'failed'):
            self.compare_calls(x, s, None, {})
            self.compare_formats(x, s)
            for c in m.log:
                if c[0] == 'dump' and c[1] not in ('i', 'j'):
                    m.check('context', sorted(c[3].included_fields) == sorted(d.name for d in chosen), 'the selection in the context')
                    m.check('context', c[3].schema is s, 'the schema')
                    m.check('context', c[7] is c[2] or H.same(c[7], c[2]), 'the stored value')
        m.check('hooks', not self.hooks, 'no hook runs')
        m.check('inputs', kw0 == {k: list(v) for k, v in kw.items()}, 'the selection is left alone')
        m.check('dump', self.same_states(self.state(s), old), 'a dump changes nothing')
        return old

    def same_out(self, r, out):
        H = self.H
        if not isinstance(r, dict) or sorted(r) != sorted(out):
            return False
        return H.And(*[self.same_out(r[k], out[k]) if isinstance(out[k], dict) else H.same(r[k], out[k]) for k in out])

    def copied(self, s, old):
        """A copy, and then one operation on either of the two."""
        m, H = self.m, self.H
        self.begin('copy')
        c = s.copy()
        m.check('copy', c is not s and type(c) is self.cls, 'a new schema of the same class')
        m.check('copy', self.same_states(self.state(c), old), 'with the same values')
        m.check('copy', c.context is not s.context and c.context.schema is c and s.context.schema is s and c.context.is_initialized()
                and c.context.config is s.context.config, 'a context of its own')
        st = s.context.state
        if isinstance(st, (dict, list, set)):
            m.check('copy', type(c.context.state) is type(st) and c.context.state == st and c.context.state is not st, 'a shallow copy of the state')
            if isinstance(st, (dict, list)):
                inner = lambda z: z.get('p') if isinstance(z, dict) else z[0]
                m.check('copy', inner(c.context.state) is inner(st), 'a shallow one')
        elif isinstance(st, Map):
            m.check('copy', isinstance(c.context.state, Map) and c.context.state is not st and c.context.state.d is st.d, 'a shallow copy of the state')
        elif isinstance(st, State):
            m.check('copy', isinstance(c.context.state, State) and c.context.state is not st and c.context.state.inner is st.inner, 'a shallow copy of the state')
        else:
            m.check('copy', H.same(c.context.state, st), 'the same state')
        m.check('copy', not self.hooks and not m.log, 'without running user code')
        return c


def run(facets, features, ops, budget=2, outcomes=('ok', 'value', 'foreign'), covers=('ok', 'failed'), base=None, free=(), plain_init=False,
        tier='quick'):
    """A scenario over the features; `ops` are the operations that may follow construction."""
    for f in tuple(free) + tuple(base or ()):
        if f.partition('@')[0].split('.')[0] not in features and f.partition('@')[0] not in features:
            raise ValueError('no such feature: ' + f)

    def scenario(H):
        b = budget if isinstance(budget, int) else H.bound(*budget)
        m = Model(H, facets, features, b, outcomes, base, free, plain_init)
        case = Case(H, m)
        s, values = case.construct()
        n = 0
        other = None
        for op in ops:
            if s is None:
                return
            op = H.choice('op%d' % n, op) if not isinstance(op, str) else op
            n += 1
            if op == 'none':
                continue
            if op == 'copy':
                other = case.copied(s, values)
                kept = dict(values)
                if m.pick('swap', (False, True)):
                    s, other = other, s
                continue
            if op == 'construct':
                s2, v2 = case.construct('op%d' % n)
                m.check('isolation', case.same_states(case.state(s), values), 'an earlier instance is unaffected')
                continue
            values = getattr(case, {'set': 'assign'}.get(op, op))(s, values, 'op%d' % n)
            if other is not None:
                m.check('copy', case.same_states(case.state(other), kept), 'the other one is unaffected')
    def bounds(tier):
        b = budget if isinstance(budget, int) else budget[tier == 'thorough']
        return ('every combination of up to %d deviations from the plain case (%s) among %s%s; the operations %s; outcomes of user code %s'
                % (b, ', '.join('%s=%s' % i for i in (base or {}).items()) or 'the first option of everything', ', '.join(features),
                   ', and of any of ' + ', '.join(free) + ' on top' if free else '', ' then '.join(('construct',) + tuple('/'.join(o) if isinstance(o, tuple) else o for o in ops)),
                   ', '.join(outcomes)))
    scenario.bounds = bounds
    scenario.covers = covers
    scenario.tier = tier
    return scenario


FIELD = ('none', 'required', 'default', 'frozen', 'raws', 'vals', 'keys', 'inherit')
DATA = ('has', 'value', 'order', 'unknown', 'data', 'ignore_arg', 'cfg_ignore')
USER = ('load', 'val', 'sametext')
CFG = ('cfg_frozen', 'cfg_style')
NESTED = ('typ', 'obj', 'init_kwargs', 'inner', 'inner_cfg', 'inner_none', 'inner_raws', 'inner_vals')
