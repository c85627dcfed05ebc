"""C27: format_error sees the true error and its answer is what is reported."""
import typing
import oblate
import model
from oblate import fields, validate
from oblate.exceptions import FieldError
from common import *

BOUNDS = ('every field class and every error code of it, in construction, update and assignment; answers: a string (symbolic), a FieldError '
          '(with state, of a subclass, with several messages), None; errors of user code with and without message in the deserializer, '
          'serializer, raw and ordinary validators, with any text and any arguments; two failing fields at a time')
ASSUMPTIONS = ['format_error itself does not raise']
SCALAR = Spec(('none', 'bool', 'int', 'float', 'str', 'bytes'))
ANSWERS = ('str', 'field', 'sub', 'many', 'none')


def type_list(x):
    return isinstance(x, list) and len(x) > 0 and all(isinstance(m, str) for m in x)


class Inner(oblate.Schema):
    x = fields.Integer()


TD = typing.TypedDict('TD', {'k': int})
INVALID, COERCION, TYPES, VALUE = 'ERR_INVALID_DATATYPE', 'ERR_COERCION_FAILED', 'ERR_TYPE_VALIDATION_FAILED', 'ERR_INVALID_VALUE'


def bad_number(text):
    return lambda v, H: H.kind(v) == 'str' and not any(v == c for c in text)


# name -> (class, args, kwargs, values, code) where code(H, value) is the name of the code of the failure or None
FIELDS = {
    'String': (fields.String, (), {}, SCALAR, lambda H, v: None if H.is_kind(v, 'str') else INVALID),
    'Integer': (fields.Integer, (), {}, SCALAR, lambda H, v: None if H.is_kind(v, 'int', 'bool') else INVALID),
    'Float': (fields.Float, (), {}, SCALAR, lambda H, v: None if H.is_kind(v, 'float', 'fspecial') else INVALID),
    'Boolean': (fields.Boolean, (), {}, SCALAR, lambda H, v: None if H.is_kind(v, 'bool') else INVALID),
    'Integer lax': (fields.Integer, (), {'strict': False}, Spec(('str', 'int'), strings=('1', 'x')),
                    lambda H, v: COERCION if H.is_kind(v, 'str') and v == 'x' else None),
    'Float lax': (fields.Float, (), {'strict': False}, Spec(('str', 'float'), strings=('1.5', 'x')),
                  lambda H, v: COERCION if H.is_kind(v, 'str') and v == 'x' else None),
    'Boolean lax': (fields.Boolean, (), {'strict': False}, Spec(('str', 'bool'), strings=('yes', 'no', 'x')),
                    lambda H, v: COERCION if H.is_kind(v, 'str') and v == 'x' else None),
    'Boolean words': (fields.Boolean, (), {'strict': False, 'true_values': ['on'], 'false_values': []}, Spec(('str',), strings=('on', 'no')),
                      lambda H, v: None if v == 'on' else COERCION),
    'Object': (fields.Object, (Inner,), {}, SCALAR, lambda H, v: INVALID),
    'Dict': (fields.Dict, (), {}, SCALAR, lambda H, v: INVALID),
    'List': (fields.List, (int,), {}, SCALAR, lambda H, v: INVALID),
    'Set': (fields.Set, (), {}, SCALAR, lambda H, v: INVALID),
    'TypedDict': (fields.TypedDict, (TD,), {}, SCALAR, lambda H, v: INVALID),
    'Literal': (fields.Literal, ('p', 3), {}, Spec(('int', 'str'), strings=('p', 'q'), ints=(3, 4)),
                lambda H, v: None if v == 'p' or v == 3 else VALUE),
    'Union': (fields.Union, (int, str), {}, SCALAR, lambda H, v: None if H.is_kind(v, 'int', 'bool', 'str') else VALUE),
    'TypeExpr': (fields.TypeExpr, (typing.Union[int, bytes],), {}, SCALAR, lambda H, v: None if H.is_kind(v, 'int', 'bool', 'bytes') else TYPES),
    'Dict items': (fields.Dict, (str, int), {}, lambda v: {'k': v}, lambda H, v: None if H.is_kind(v, 'int', 'bool') else TYPES),
    'List items': (fields.List, (int,), {}, lambda v: [1, v], lambda H, v: None if H.is_kind(v, 'int', 'bool') else TYPES),
    'Set items': (fields.Set, (int,), {}, lambda v: {'w'} if v is None else {3}, lambda H, v: TYPES if v is None else None),
    'TypedDict items': (fields.TypedDict, (TD,), {}, lambda v: {'k': v}, lambda H, v: None if H.is_kind(v, 'int', 'bool') else TYPES),
}


def formatting(base, H, log):
    """The class with a recording format_error whose answers are chosen."""
    class Formatting(base):
        def format_error(self, code, context):
            n = str(len(log))
            how = H.choice('answer.' + n, ANSWERS)
            if how == 'str':
                a = H.str('text.' + n, maxlen=3)
            elif how == 'field':
                a = FieldError('fe' + n, H.value('state.' + n, ANY))
            elif how == 'sub':
                a = SubFieldError('sub' + n, 'st')
            elif how == 'many':
                a = FieldError(['m0' + n, 'm1' + n], 'st')
            else:
                a = None
            log.append((code, context, a, how))
            H.check('mark' not in context.metadata, 'the metadata belongs to this failure alone')
            context.metadata['mark'] = n
            return a
    return Formatting


def operate(H, cls, s, how, key, name, value):
    if how == 'construct':
        return H.attempt(cls, {key: value})
    if how == 'update':
        return H.attempt(s.update, {key: value})
    return H.attempt(setattr, s, name, value)


def reported(H, errors, call, default):
    """The errors of a failure are exactly the answer of format_error."""
    code, context, a, how = call
    if how == 'str':
        H.check(len(errors) == 1 and H.eq(errors[0].message, a), 'the returned text is reported')
    elif how in ('field', 'sub'):
        H.check(len(errors) == 1 and errors[0] is a, 'the returned FieldError is reported')
    elif how == 'many':
        H.check([e.message for e in errors] == a.message, 'all messages of the returned FieldError')
        H.check(all(e.state == 'st' for e in errors), 'with its state')
    else:
        H.check(len(errors) == len(default) and all(H.eq(e.message, d.message) for e, d in zip(errors, default)), 'the default message is reported')
        H.cover('default')


def truthful(H, call, code, field, schema, value, nothing=False, types=False):
    """format_error was told the truth."""
    got, ctx, a, how = call
    H.check(got == code and ctx.error_code == code, 'the documented code')
    H.check(ctx.field is field, 'that field')
    H.check(ctx.schema is schema, 'the schema')
    if nothing:
        ok, r = H.attempt(ctx.get_value)
        H.check(not ok and isinstance(r, ValueError), 'no value for a missing field')
    else:
        H.check(H.same(ctx.get_value(), value), 'the offending value')
    H.check(isinstance(ctx.metadata, dict), 'metadata is a dictionary')
    if types:
        H.check(type_list(ctx.metadata.get('type_validation_fail_errors')), 'the type errors in the metadata')


def codes(H):
    """Each field class and error code."""
    kind = H.choice('field', tuple(FIELDS))
    base, args, kw, spec, code = FIELDS[kind]
    log = []
    Fm = formatting(base, H, log)

    class S(oblate.Schema):
        a = Fm(*args, none=False, load_key='ka', **kw)

    class Twin(oblate.Schema):
        a = base(*args, none=False, load_key='ka', **kw)
    how = H.choice('how', ('construct', 'update', 'set'))
    case = H.choice('case', ('value', 'none', 'missing') if how == 'construct' else ('value', 'none'))
    s = None
    if how != 'construct':
        S.a.required = False
        s = S({})
        S.a.required = True
    known = [getattr(S.a, c) for c in ('ERR_FIELD_REQUIRED', 'ERR_NONE_DISALLOWED', 'ERR_VALIDATION_FAILED', INVALID, COERCION, TYPES, VALUE)
             if hasattr(S.a, c)]
    H.check(len(set(known)) == len(known), 'distinct codes')
    if case == 'missing':
        ok, r = H.attempt(S, {})
        c, value = 'ERR_FIELD_REQUIRED', None
    elif case == 'none':
        ok, r = operate(H, S, s, how, 'ka', 'a', None)
        c, value = 'ERR_NONE_DISALLOWED', None
    else:
        v = H.value('v', Spec(('none', 'bool', 'int', 'float', 'str', 'bytes')) if callable(spec) else spec)
        value = spec(v) if callable(spec) else v
        if value is None:
            return
        c = code(H, v)
        ok, r = operate(H, S, s, how, 'ka', 'a', value)
    H.check(ok == (c is None), 'fails exactly for the failing values')
    if ok:
        H.check(log == [], 'format_error is not asked without a failure')
        H.cover('accepted')
        return
    H.check(isinstance(r, oblate.ValidationError), 'a validation error')
    H.check(len(log) == 1, 'asked once')
    truthful(H, log[0], getattr(S.a, c), S.a, r.schema, value, nothing=case == 'missing', types=c in (TYPES, VALUE))
    H.check(type(r.schema) is S and (s is None or r.schema is s), 'the instance')
    H.check(all(e.key == 'ka' for e in r.errors), 'under the load key')
    default = None
    if log[0][3] == 'none':
        ok, r2 = H.attempt(Twin, {} if case == 'missing' else {'ka': value})
        default = r2.errors
    reported(H, r.errors, log[0], default)
    H.cover('failed ' + c)


class Raiser(fields.Field):
    def __init__(self, w, ident, **kw):
        self.w, self.ident = w, ident
        super().__init__(**kw)

    def value_load(self, value, context):
        o = self.w.outcome('load', self.ident, self.w.outs)
        self.w.fail(o, 'load:' + self.ident)
        return ('loaded', value)

    def value_dump(self, value, context):
        self.w.fail(self.w.outcome('dump', self.ident, self.w.douts), 'dump:' + self.ident)
        return value


USER = ('ok', 'value', 'assert', 'field', 'subvalue', 'empty', 'emptyassert')


def user_errors(H):
    """Errors of user code keep their message; those without a message get the validation-failed code."""
    w = World(H, USER if H.flip('load') else ('ok',), ('ok', 'value', 'empty', 'emptyassert', 'field'))
    log = []
    Fm = formatting(Raiser, H, log)
    raw = H.flip('raw')

    class S(oblate.Schema):
        a = Fm(w, 'a', load_key='ka', none=True)

    class Twin(oblate.Schema):
        a = Raiser(w, 'a', load_key='ka', none=True)
    how = H.choice('how', ('construct', 'update', 'set'))
    s = None
    v = H.value('v', Spec(('int', 'str', 'none')))
    if how != 'construct':
        outs, w.outs = w.outs, ('ok',)
        w.begin('init')
        s = S({'ka': 0})
        w.outs = outs
    for c in (S, Twin):
        c.a.add_validator(w.validator('v'), raw=raw)
    w.begin('op')
    ok, r = operate(H, S, s, how, 'ka', 'a', v)
    lo = w.outcome('load', 'a', w.outs) if v is not None else 'ok'
    runs = raw or lo == 'ok' and v is not None
    vo = w.outcome('val', 'v', w.vouts) if runs else 'ok'
    H.check(ok == (lo == 'ok' and vo == 'ok'), 'fails exactly when user code fails')
    asked = [x for x in (('load', lo), ('val', vo)) if x[1] in ('empty', 'emptyassert')]
    H.check(len(log) == len(asked), 'asked once for each error without message')
    if ok:
        return
    for (what, o), call in zip(asked, log):
        if what == 'load' or raw:
            truthful(H, call, S.a.ERR_VALIDATION_FAILED, S.a, r.schema, v)
        else:
            got = call[1].get_value()
            H.check(isinstance(got, tuple) and got[0] == 'loaded' and H.same(got[1], v), 'the value the validator rejected')
            H.check(call[0] == S.a.ERR_VALIDATION_FAILED and call[1].field is S.a and call[1].schema is r.schema, 'true error context')
        H.cover('asked')
    # the report: messages kept, answers for the others
    exp = []
    for (what, o), label in ((('load', lo), 'load:a'), (('val', vo), 'val:v')):
        if o in ('value', 'assert', 'field', 'subvalue'):
            exp.append(label)
            H.cover('kept')
    for call in log:
        if call[3] == 'str':
            exp.append(call[2])
        elif call[3] in ('field', 'sub'):
            exp.append(call[2].message)
            H.check(any(e is call[2] for e in r.errors), 'the very FieldError')
        elif call[3] == 'many':
            exp += call[2].message
        else:
            ok2, r2 = H.attempt(Twin, {'ka': v})
            exp.append([e.message for e in r2.errors if e.message not in ('load:a', 'val:v')][0])
            H.cover('default')
    H.check(len(exp) == len(r.errors), 'one report per error')
    left = [e.message for e in r.errors]
    for m in exp:
        H.check(H.Or(*[H.eq(m, x) for x in left]), 'reported as answered')


class Worded(ValueError):
    def __str__(self):
        return 'worded'


class Wordless(AssertionError):
    def __str__(self):
        return ''


def arguments(H):
    """The message of an error is its text: any text, any number of arguments."""
    kind = H.choice('kind', ('any', 'args', 'own'))
    cls = H.choice('class', (ValueError, AssertionError))
    if kind == 'any':
        m = H.str('message')
        err, text = cls(m), m
    elif kind == 'args':
        args = H.choice('args', ((), ('',), (' ',), ('\n',), ('\t ',), ('m', 'n'), ('m', 5), ('', ''), (0,), (1,), (None,), (False,), ([],), ([1],), ({},), (b'',), ('None',), ((),), (ValueError(),), ('{x}', '%s'), ('',) * 3))
        err = cls(*args)
        text = str(err)
    else:
        err, text = H.choice('own', ((Worded(), 'worded'), (Worded(''), 'worded'), (Wordless('m'), ''), (Wordless(), ''), (UnicodeDecodeError('utf-8', b'x', 0, 1, 'why'), None)))
        if text is None:
            text = str(err)
    asked = []

    class Fm(fields.Field):
        def format_error(self, code, context):
            asked.append(code)
            return 'asked'

        def value_load(self, value, context):
            if where == 'load' and armed:
                raise err
            return value

        def value_dump(self, value, context):
            if where == 'dump':
                raise err
            return value
    where = H.choice('where', ('load', 'validator', 'raw', 'decorated', 'dump'))
    armed = False

    def val(schema, value, context):
        if armed:
            raise err

    class S(oblate.Schema):
        a = Fm()
        if where == 'decorated':
            @oblate.validate.field('a')
            def check(self, value, context):
                if armed:
                    raise err
    if where in ('validator', 'raw'):
        S.a.add_validator(val, raw=where == 'raw')
    op = H.choice('op', ('construct', 'update', 'set')) if where != 'dump' else 'dump'
    s = S({'a': 0}) if op != 'construct' else None
    armed = True
    ok, r = H.attempt(s.dump) if op == 'dump' else operate(H, S, s, op, 'a', 'a', 1)
    H.check(not ok and isinstance(r, oblate.ValidationError) and len(r.errors) == 1, 'one report')
    if H.eq(text, ''):
        H.check(asked == [S.a.ERR_VALIDATION_FAILED], 'asked with the validation-failed code')
        H.check(H.eq(r.errors[0].message, 'asked'), 'and reported as answered')
        H.cover('asked')
    else:
        H.check(asked == [], 'not asked')
        H.check(H.eq(r.errors[0].message, text), 'the message is kept as it is')
        H.cover('kept')


arguments.covers = ('asked', 'kept')


def dump_errors(H):
    w = World(H, ('ok',), douts=USER)
    log = []
    Fm = formatting(Raiser, H, log)

    class S(oblate.Schema):
        a = Fm(w, 'a', load_key='ka')
        b = Fm(w, 'b', required=False)

    class Twin(oblate.Schema):
        a = Raiser(w, 'a', load_key='ka')
    v = H.value('v', Spec(('int', 'str')))
    both = H.flip('b')
    s = S({'ka': v, 'b': 1} if both else {'ka': v})
    w.begin('op')
    ok, r = H.attempt(s.dump)
    outs = {'a': w.outcome('dump', 'a', USER)}
    if both:
        outs['b'] = w.outcome('dump', 'b', USER)
    bad = [n for n in outs if outs[n] != 'ok']
    H.check(ok == (not bad), 'fails exactly when a serializer fails')
    empties = [n for n in bad if outs[n].startswith('empty')]
    H.check(len(log) == len(empties), 'asked once for each error without message')
    if ok:
        return
    for call in log:
        n = call[1].field.name
        H.check(n in empties, 'a failing field')
        got = call[1].get_value()
        H.check(got is s.get_value_for(n), 'the value being dumped')
        H.check(call[0] == getattr(S, n).ERR_VALIDATION_FAILED and call[1].schema is s, 'true error context')
        key = {'a': 'ka'}.get(n, n)
        default = None
        if call[3] == 'none':
            ok2, r2 = H.attempt(Twin({'ka': v}).dump)
            if outs['a'] != outs[n]:
                continue
            default = r2.errors
        reported(H, [e for e in r.errors if e.key == key], call, default)
        H.cover('asked')
    for n in bad:
        if n not in empties:
            H.check([e.message for e in r.errors if e.key == {'a': 'ka'}.get(n, n)] == ['dump:' + n], 'the message is kept')
            H.cover('kept')


def several(H):
    """Two failing fields: each is asked for its own failure, nested fields for theirs."""
    log = []
    I, T = formatting(fields.Integer, H, log), formatting(fields.String, H, log)

    class In(oblate.Schema):
        x = I(load_key='kx')

    class S(oblate.Schema):
        i = I(load_key='ki')
        n = fields.Object(In)
        t = T(required=False)
    vi, vx = H.value('vi', Spec(('int', 'str', 'none'))), H.value('vx', Spec(('int', 'str', 'none')))
    gi, gx = H.flip('i'), H.flip('x')
    data = {'n': {'kx': vx} if gx else {}}
    if gi:
        data['ki'] = vi
    ok, r = H.attempt(S, data)
    bi, bx = not gi or not H.is_kind(vi, 'int'), not gx or not H.is_kind(vx, 'int')
    H.check(ok == (not bi and not bx), 'valid exactly when all are')
    H.check(len(log) == bi + bx, 'asked once per failure')
    for call in log:
        f = call[1].field
        H.check(f is S.i or f is In.x, 'the failing field')
        given, v = (gi, vi) if f is S.i else (gx, vx)
        c = f.ERR_FIELD_REQUIRED if not given else f.ERR_NONE_DISALLOWED if v is None else f.ERR_INVALID_DATATYPE
        sch = r.schema if f is S.i else [e for e in r.errors if e.key == 'n'][0].message['kx'][0].schema
        H.check(type(sch) is (S if f is S.i else In), 'schema of its level')
        truthful(H, call, c, f, sch, v, nothing=not given)
        if call[3] in ('str', 'field', 'sub'):
            es = [e for e in r.errors if e.key == 'ki'] if f is S.i else [e for e in r.errors if e.key == 'n'][0].message['kx']
            reported(H, es, call, None)
    H.cover('both' if bi and bx else 'one')


codes.covers = ('accepted', 'failed ERR_FIELD_REQUIRED', 'failed ERR_NONE_DISALLOWED', 'failed ' + INVALID, 'failed ' + COERCION,
                'failed ' + TYPES, 'failed ' + VALUE, 'default')
user_errors.covers = ('asked', 'kept', 'default')
dump_errors.covers = ('asked', 'kept')
several.covers = ('both', 'one')
SCENARIOS = dict(codes=codes, user_errors=user_errors, dump_errors=dump_errors, several=several, arguments=arguments)

SCENARIOS.update(
    deviations=model.run(('format', 'errors'), model.FIELD + model.DATA + model.USER + ('format',), (('none', 'update', 'set'),), (2, 3), ('ok', 'empty', 'value', 'foreign'), base={'raws.a': 1, 'vals.a': 1, 'raws.b': 1, 'vals.b': 1}),
    deviations_nested=model.run(('format', 'errors'), model.NESTED + model.FIELD + model.DATA + model.USER + ('format',), (('none', 'update', 'set'),), (2, 3), ('ok', 'empty', 'value'), base={'typ': 'object'}, free=('obj',)),
    deviations_dump=model.run(('format', 'errors'), model.FIELD + ('has', 'value', 'dump', 'sametext', 'select', 'container', 'dumpkeys') + ('format', 'typ', 'obj'), ('dump',), (2, 3), ('ok', 'empty', 'value'), free=('dump',)),
)
