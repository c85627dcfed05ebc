"""Shared harness vocabulary: fields and validators with solver-chosen outcomes, and the reference oracle.

Every callback outcome is a solver variable named after its logical identity (what, which, during which operation), so the
oracle can ask for the very same outcome the code under test saw - or would have seen.
"""
import oblate
from oblate import fields, validate
from oblate.exceptions import FieldNotSet
from sx.kinds import Spec


class Foreign(Exception):
    """An exception of a type the library knows nothing about."""


class ForeignBase(BaseException):
    """Same, not even an Exception (like KeyboardInterrupt)."""


class SubValueError(ValueError):
    pass


class SubFieldError(oblate.FieldError):
    pass


# exceptions that are no rejection
EXC = dict(foreign=Foreign, base=ForeignBase, type=TypeError, key=KeyError, attribute=AttributeError, index=IndexError, lookup=LookupError,
           runtime=RuntimeError, os=OSError, arithmetic=ZeroDivisionError, notimplemented=NotImplementedError, warning=UserWarning,
           oblate=oblate.OblateException, interrupt=KeyboardInterrupt, exit=SystemExit)
EXCS = tuple(EXC.values())
ANY = Spec(('none', 'bool', 'int', 'str'))              # opaque results of user code (falsy ones included)
FAIL = ('ok', 'value')
ALLOUT = ('ok', 'value', 'assert', 'field', 'subvalue', 'subfield', 'empty', 'emptyassert', 'foreign', 'base', 'type')
INPUT = Spec(('none', 'int', 'str'))                    # input values
NONNULL = Spec(('int', 'str'))
class _Unset:
    def __repr__(self):
        return 'UNSET'


UNSET = _Unset()


def label_of(outcome, label):
    """Message reported for a failing outcome (None if it is not a validation failure)."""
    if outcome in ('value', 'assert', 'field', 'subvalue', 'subfield'):
        return label
    if outcome in ('empty', 'emptyassert'):
        return 'code:field.validation_failed'
    return None


def is_foreign(outcome):
    return outcome in EXC


RETURNS = (False, None, True, 'text', 0, [1])           # what validators return means nothing


class World:
    def __init__(self, H, outs=('ok', 'value'), vouts=None, douts=None):
        self.H = H
        self.outs = outs
        self.vouts = vouts or outs
        self.douts = douts or outs
        self.op = 'op'
        self.log = []
        self.hooks = {}
        self.res_spec = ANY

    def begin(self, op):
        self.op = op
        self.log = []

    def outcome(self, what, ident, options, op=None):
        return self.H.choice('%s.%s@%s' % (what, ident, op or self.op), options)

    def fail(self, outcome, label):
        if outcome == 'ok':
            return
        if outcome == 'value':
            raise ValueError(label)
        if outcome == 'subvalue':
            raise SubValueError(label)
        if outcome == 'assert':
            raise AssertionError(label)
        if outcome == 'field':
            raise oblate.FieldError(label)
        if outcome == 'subfield':
            raise SubFieldError(label)
        if outcome == 'list':
            raise oblate.FieldError([label + '.0', label + '.1'])
        if outcome == 'dict':
            raise oblate.FieldError({'k': label})
        if outcome == 'blank':
            raise oblate.FieldError('')
        if outcome == 'none':
            raise oblate.FieldError(None)
        if outcome == 'empty':
            raise ValueError()
        if outcome == 'emptyassert':
            raise AssertionError()
        raise EXC[outcome](label)

    def result(self, what, ident, op=None):
        return self.H.value('res.%s.%s@%s' % (what, ident, op or self.op), self.res_spec)

    def hook(self, what, ident, *a):
        h = self.hooks.get((what, ident))
        if h is not None:
            h(*a)

    def attempt(self, f, *a, **k):
        """(True, result) or (False, exception); foreign base exceptions included."""
        try:
            return True, f(*a, **k)
        except Exception as e:
            return False, e
        except (ForeignBase, KeyboardInterrupt, SystemExit) as e:
            return False, e

    def validator(self, ident, outs=None, raw=None):
        w = self
        outs = outs or self.vouts

        def check(schema, value, context):
            w.log.append(('val', ident, value, context, schema))
            w.hook('val', ident, schema, value, context)
            w.fail(w.outcome('val', ident, outs), 'val:' + ident)
            return RETURNS[len(w.log) % len(RETURNS)]
        if raw is not None:
            check.__validator_is_raw__ = raw
        check.ident = ident
        return check


class HField(fields.Field):
    """A field whose conversions have solver-chosen outcomes."""

    def __init__(self, w, ident, outs=None, douts=None, **kw):
        self.w, self.ident = w, ident
        self.outs = outs or w.outs
        self.douts = douts or w.douts
        super().__init__(**kw)

    def value_load(self, value, context):
        w = self.w
        w.log.append(('load', self.ident, value, context))
        w.hook('load', self.ident, value, context)
        w.fail(w.outcome('load', self.ident, self.outs), 'load:' + self.ident)
        return w.result('load', self.ident)

    def value_dump(self, value, context):
        w = self.w
        w.log.append(('dump', self.ident, value, context))
        w.hook('dump', self.ident, value, context)
        w.fail(w.outcome('dump', self.ident, self.douts), 'dump:' + self.ident)
        return w.result('dump', self.ident)

    def format_error(self, code, context):
        self.w.log.append(('format', self.ident, code, context))
        self.w.hook('format', self.ident, code, context)
        return 'code:%s' % (code,)


class Pass(fields.Field):
    """Stores and dumps values unchanged."""

    def value_load(self, value, context):
        return value

    def value_dump(self, value, context):
        return value

    def format_error(self, code, context):
        return 'code:%s' % (code,)


class F:
    """Description of a field for the oracle."""

    def __init__(self, name, key=None, none=False, required=True, default=UNSET, frozen=False, raws=(), vals=(), outs=None,
                 vouts=None, dump_key=None, douts=None):
        self.name, self.key = name, key if key is not None else name
        self.none, self.required, self.default, self.frozen = none, required, default, frozen
        self.raws, self.vals, self.outs, self.vouts = tuple(raws), tuple(vals), outs, vouts
        self.dump_key = dump_key if dump_key is not None else name
        self.douts = douts

    def make(self, w):
        kw = {}
        if self.default is not UNSET:
            kw['default'] = self.default
        if self.key != self.name:
            kw['load_key'] = self.key
        if self.dump_key != self.name:
            kw['dump_key'] = self.dump_key
        f = HField(w, self.name, outs=self.outs, douts=self.douts, none=self.none, required=self.required, frozen=self.frozen, **kw)
        # interleave kinds on purpose: registration order must be kept within a kind
        for v in self.vals:
            f.add_validator(w.validator(v, self.vouts))
        for v in self.raws:
            f.add_validator(w.validator(v, self.vouts), raw=True)
        return f


class Text(str):
    """A string of another class."""


# keys that only look like the names 'a', 'A', ' a', '1', 'None', 'True', '' and '_b', or are equal to them
ODD_NAMES = ('a', 'A', ' a', '1', 'None', 'True', '', '_b')
ODD_KEYS = (1, None, True, b'a', 'a ', '\u00e1', ' a', 'A', '', '_b', '__b', 'b', '1 ', '01', 1.0, ('a',), frozenset('a'), Text('A'), Text('zz'))


class Unprintable:
    """Has no text."""

    def __repr__(self):
        raise RuntimeError('repr')
    __str__ = __repr__

    def __int__(self):
        raise OverflowError('int')

    def __float__(self):
        raise OverflowError('float')


class Halfprintable(Unprintable):
    """Has a text, but no representation."""

    def __str__(self):
        return 'yes'


UNPRINTABLE = (Unprintable(), Halfprintable(), 10 ** 5000, -10 ** 5000, [10 ** 5000], (Unprintable(),))


def make_schema(w, descr, name='S', base=None, config=None, **attrs):
    """A schema class with the described fields."""
    ns = {}
    for f in descr:
        ns[f.name] = f.make(w)
    if config:
        ns['Config'] = type('Config', (oblate.SchemaConfig,), config)
    ns.update(attrs)
    ns['__module__'] = __name__
    return type(base or oblate.Schema)(name, (base or oblate.Schema,), ns)


def set_outs(cls, descr, outs):
    """From now on the deserializers have the given outcomes."""
    for f in descr:
        f.outs = outs
        getattr(cls, f.name).outs = outs


def construct_quietly(H, w, cls, descr, present, op='init'):
    """Constructs a schema with the listed fields set while every deserializer succeeds."""
    w.begin(op)
    old = {f.name: getattr(cls, f.name).outs for f in descr}
    for f in descr:
        getattr(cls, f.name).outs = ('ok',)
    s = cls({f.key: H.value(op + '.' + f.name, NONNULL) for f in descr if f.name in present})
    for f in descr:
        getattr(cls, f.name).outs = old[f.name]
    return s


def find(descr, key):
    for f in descr:
        if f.key == key:
            return f
    return None


class Prediction:
    def __init__(self):
        self.errors = []        # ('f', name, label) | ('u', entry index)
        self.verrs = {}         # name -> labels of failing validators in order
        self.foreign = False
        self.frozen = None
        self.values = {}        # values after success
        self.calls = []         # ('load'|'val', ident)

    @property
    def ok(self):
        return not self.errors and not self.foreign and self.frozen is None


def predict(w, descr, entries, op, ignore_extra, mode='load'):
    """What loading / updating with the entries must do, from the documented rules alone."""
    p = Prediction()
    seen = []
    known = [find(descr, key) for key, _ in entries]
    if mode == 'update':
        for f in known:
            if f is not None and f.frozen:
                p.frozen = f.name
                return p
    for j, (key, value) in enumerate(entries):
        f = known[j]
        if f is None:
            if not ignore_extra:
                p.errors.append(('u', j))
            continue
        seen.append(f.name)
        verrs = []

        def run(vs):
            for v in vs:
                p.calls.append(('val', v))
                o = w.outcome('val', v, f.vouts or w.vouts, op)
                if is_foreign(o):
                    p.foreign = True
                    return
                if o != 'ok':
                    verrs.append(label_of(o, 'val:' + v))
        run(f.raws)
        if p.foreign:
            return p
        if value is None:
            if not f.none:
                p.errors.append(('f', f.name, 'code:field.none_disallowed'))
            else:
                p.values[f.name] = None
        else:
            p.calls.append(('load', f.name))
            o = w.outcome('load', f.name, f.outs or w.outs, op)
            if is_foreign(o):
                p.foreign = True
                return p
            if o != 'ok':
                p.errors.append(('f', f.name, label_of(o, 'load:' + f.name)))
            else:
                p.values[f.name] = w.result('load', f.name, op)
                run(f.vals)
                if p.foreign:
                    return p
        p.verrs[f.name] = verrs
        for l in verrs:
            p.errors.append(('f', f.name, l))
    if mode == 'load':
        for f in descr:
            if f.name in seen:
                continue
            if f.default is not UNSET:
                p.values[f.name] = f.default
            elif f.required:
                p.errors.append(('f', f.name, 'code:field.field_required'))
    return p


def observed_errors(descr, entries, err):
    """The errors of a ValidationError in the oracle's terms."""
    out = []
    for e in err.errors:
        key = e.key
        f = find(descr, key)
        if f is not None:
            out.append(('f', f.name, e.message if isinstance(e.message, str) else repr(e.message)))
            continue
        for j, (k, _) in enumerate(entries):
            if k == key:
                out.append(('u', j))
                break
        else:
            out.append(('?', repr(key)))
    return out


def same_multiset(a, b):
    return sorted(map(repr, a)) == sorted(map(repr, b))


def check_result(H, w, p, ok, r, what='operation'):
    """The kind of outcome is the predicted one; True if it was a validation failure."""
    if p.frozen is not None:
        H.check(not ok, what + ' on a frozen field must fail')
        H.check(isinstance(r, (oblate.FrozenError,) + EXCS), 'FrozenError expected, got ' + type(r).__name__)
        H.cover('frozen')
    elif p.foreign:
        H.check(not ok and isinstance(r, EXCS), 'a foreign exception is let through')
        H.cover('foreign')
    elif p.errors:
        H.check(not ok, what + ' with invalid data must fail')
        H.check(isinstance(r, oblate.ValidationError), 'ValidationError expected, got ' + type(r).__name__)
        H.cover('invalid')
        return True
    else:
        H.check(ok, what + ' with valid data must succeed, got ' + type(r).__name__)
        H.cover('valid')
    return False


def state_of(schema, names):
    """Current values, UNSET for unset fields (through the public reader)."""
    out = {}
    for n in names:
        try:
            out[n] = schema.get_value_for(n)
        except FieldNotSet:
            out[n] = UNSET
    return out


def same_value(H, a, b):
    if a is UNSET or b is UNSET:
        return a is b
    return H.same(a, b)


def same_state(H, a, b):
    """The same fields are set, to the same values."""
    if sorted(a) != sorted(b):
        return False
    return H.And(*[same_value(H, a[n], b[n]) for n in a])


def mapping(H, pairs):
    """A mapping with the given (possibly symbolic, distinct) keys."""
    if H.symbolic:
        from sx.core import SxDict, assume_distinct, is_sym
        if any(is_sym(k) for k, _ in pairs):
            assume_distinct([k for k, _ in pairs])
            return SxDict(pairs)
    else:
        H.assume(len({k for k, _ in pairs}) == len(pairs))
    return dict(pairs)


class Wide(fields.Field):
    """Fails while loading or dumping when told so."""

    def __init__(self, bad, **kw):
        self.bad = bad
        super().__init__(**kw)

    def value_load(self, value, context):
        if ('load', self.name) in self.bad:
            raise ValueError('load ' + self.name)
        return value

    def value_dump(self, value, context):
        if ('dump', self.name) in self.bad:
            raise AssertionError('dump ' + self.name)
        return value


def wide(H, op, many=4):
    """Schemas with many fields at two levels, any of which fail, with any number of unknown keys: (end, result, expected raw form)."""
    bad = set()
    names = ['abcd'[i] for i in range(many)]
    inner = ['pqrs'[i] for i in range(many)]
    mk = lambda n: Wide(bad, load_key='k' + n) if n in 'acqs' else Wide(bad)
    key = lambda n: 'k' + n if n in 'acqs' else n
    meta = type(oblate.Schema)
    In = meta('In', (oblate.Schema,), dict([(n, mk(n)) for n in inner], __module__=__name__))
    ns = dict([(n, mk(n)) for n in names], __module__=__name__)
    ns['n'] = fields.Object(In, load_key='kn', required=False)
    S = meta('S', (oblate.Schema,), ns)
    data = {key(n): n for n in names}
    data['kn'] = {key(n): n for n in inner}
    s = S(data) if op != 'construct' else None
    what = 'dump' if op == 'dump' else 'load'
    want, below = {}, {}
    for ns, out in ((names, want), (inner, below)):
        for n in ns:
            if H.flip('bad.' + n):
                bad.add((what, n))
                out[key(n)] = [what + ' ' + n]
    if op != 'dump':
        for k in ['u%d' % i for i in range(H.choice('unknown', (0, 1, 3, 12)))]:
            data[k] = 1
            want[k] = None
        for k in ['v%d' % i for i in range(H.choice('unknown inside', (0, 1, 12)))]:
            data['kn'][k] = 1
            below[k] = None
    if below:
        want['kn'] = [below]
    ok, r = H.attempt(s.dump) if op == 'dump' else H.attempt(S, data) if op == 'construct' else H.attempt(s.update, data)
    H.cover('valid' if not want else 'invalid')
    return ok, r, want


def judge_wide(H, ok, r, want):
    H.check(ok == (not want), 'fails exactly when something fails')
    if ok:
        return
    H.check(isinstance(r, oblate.ValidationError), 'with a ValidationError')
    raw = r.raw()

    def same(got, want):
        H.check(sorted(got) == sorted(want), 'exactly the failing keys')
        for k in want:
            if want[k] is None:
                H.check(len(got[k]) == 1 and isinstance(got[k][0], str), 'one error for an unknown key')
            elif isinstance(want[k][0], dict):
                H.check(len(got[k]) == 1 and isinstance(got[k][0], dict), 'one nested error')
                same(got[k][0], want[k][0])
            else:
                H.check(got[k] == want[k], 'with the message')
    same(raw, want)


def wide_scenario(ops):
    def wide_(H):
        judge_wide(H, *wide(H, H.choice('op', ops), H.bound(3, 4)))
    wide_.covers = ('valid', 'invalid')
    return wide_


class Scaled(fields.Integer):
    """An integer field that cannot dump 777."""

    def value_dump(self, value, context):
        if value == 777:
            raise ValueError('unlucky')
        return value

    def format_error(self, code, context):
        return 'code:%s' % (code,)


def scale(facets, ops):
    """Many fields (every kind of option alternating), one of them - any - given an arbitrary value, another one failing or not."""
    def scenario(H):
        n = H.bound(8, 20)
        names = ['f%d' % i for i in range(n)]
        key = lambda i: 'k%d' % i if i % 2 else 'f%d' % i
        ns = {'__module__': __name__}
        for i in range(n):
            kw = {}
            if i % 2:
                kw['load_key'] = key(i)
            if i % 3 == 0:
                kw['dump_key'] = 'd%d' % i
            if i % 4 == 0:
                kw['none'] = True
            if i % 5 == 0:
                kw['default'] = -i
            elif i % 5 == 1:
                kw['required'] = False
            ns['f%d' % i] = Scaled(validators=[validate.Exclude(-1), validate.Range(-100, 10 ** 6)], **kw)
        S = type(oblate.Schema)('S', (oblate.Schema,), ns)
        op = H.choice('op', ops)
        p = H.choice('position', tuple(range(n)))
        other = H.choice('other', ('none', 'first', 'last', 'unknown'))
        absent = H.flip('absent')
        v = None if absent else H.value('v', Spec(('none', 'int', 'str')))
        data = {key(i): i for i in range(n)}
        want, values = {}, {i: i for i in range(n)}
        if absent:
            del data[key(p)]
            if op == 'construct':
                if p % 5 == 0:
                    values[p] = -p
                else:
                    del values[p]
                    if p % 5 != 1:
                        want[key(p)] = 'code:field.field_required'
        else:
            data[key(p)] = v
            values[p] = v
            if v is None:
                if p % 4:
                    want[key(p)] = 'code:field.none_disallowed'
            elif not isinstance(v, int):
                want[key(p)] = 'code:integer.invalid_datatype'
            elif v == -1 or not H.And(v >= -100, v <= 10 ** 6):
                want[key(p)] = None
        q = {'first': 0, 'last': n - 1}.get(other)
        if q is not None and q != p:
            data[key(q)] = 'bad'
            want[key(q)] = 'code:integer.invalid_datatype'
        elif other == 'unknown':
            data['zz'] = 1
            want['zz'] = None
        s, before = None, {}
        if op != 'construct':
            s = S({key(i): 1000 + i for i in range(n)})
            before = state_of(s, names)
        ok, r = H.attempt(S, data) if op == 'construct' else H.attempt(s.update, data)
        if 'end' in facets:
            H.check(ok == (not want), 'succeeds exactly when everything is valid')
        if not ok:
            H.cover('invalid')
            if 'errors' in facets:
                raw = r.raw()
                H.check(sorted(raw) == sorted(want), 'exactly the failing keys')
                for k in want:
                    H.check(len(raw[k]) >= 1 and (want[k] is None or raw[k] == [want[k]]), 'with their messages')
                H.check(all(e.schema is r.schema and (e.field is None) == (e.key == 'zz') for e in r.errors), 'rightly attributed')
            if 'kept' in facets and s is not None:
                H.check(same_state(H, before, state_of(s, names)), 'nothing changed')
            return
        H.cover('valid')
        if op == 'construct':
            s = r
        elif absent:
            values[p] = 1000 + p
        now = state_of(s, names)
        if 'values' in facets:
            for i in range(n):
                H.check(now['f%d' % i] is UNSET if i not in values else H.same(now['f%d' % i], values[i]), 'every field has its value')
        if 'read' in facets:
            for i in range(n):
                for name in ('f%d' % i, key(i)):
                    got = s.get_value_for(name, 'dflt')
                    H.check(H.same(got, values[i]) if i in values else got == 'dflt', 'read by name and load key')
        if 'copy' in facets:
            c = s.copy()
            H.check(same_state(H, now, state_of(c, names)), 'the copy has the same values')
            c.update({key(p): 5})
            H.check(same_state(H, now, state_of(s, names)), 'the original keeps its own')
            H.check(c.get_value_for('f%d' % p) == 5, 'the copy changes')
        if 'dump' in facets:
            sel = H.choice('select', ('all', 'include', 'exclude', 'include others', 'exclude others'))
            one, rest = ['f%d' % p], [x for x in names if x != 'f%d' % p]
            kw = {'all': {}, 'include': dict(include=one), 'exclude': dict(exclude=one), 'include others': dict(include=rest), 'exclude others': dict(exclude=rest)}[sel]
            chosen = [i for i in values if {'all': True, 'include': i == p, 'exclude others': i == p}.get(sel, i != p)]
            ok, d = H.attempt(s.dump, **kw)
            bad = p in chosen and not absent and v is not None and H.eq(v, 777)
            if bad:
                H.check(not ok and d.raw() == {key(p): ['unlucky']}, 'exactly the failing field')
                H.cover('dump failed')
            else:
                H.check(ok, 'dumped')
                out = {'d%d' % i if i % 3 == 0 else 'f%d' % i: values[i] for i in chosen}
                H.check(sorted(d) == sorted(out) and H.And(*[H.same(d[k], out[k]) for k in out]), 'exactly the selected set fields')
    scenario.covers = ('valid', 'invalid') + (('dump failed',) if 'dump' in facets else ())
    return scenario
