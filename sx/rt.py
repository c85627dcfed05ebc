"""Runtime of the instrumentation: what calls of builtins, `is`, `in`, f-strings and `%` do on symbolic operands."""
import builtins
import collections.abc
import re
import types

import z3

from . import core as C
from . import kinds as K
from .core import (Sym, SymBool, SymFloat, SymInt, SymStr, SymVal, SxDict, SxSet, Atom, Degrade, f_and, f_not, f_or, is_sym,
                   isinstance_, join_parts, mark, mkbool, parts_of, simp, sx_eq, sx_float, sx_int, sx_repr, sx_str, sx_type,
                   unmark, unwrap, str_e, conv_int)

ENTERED = set()
_type = type
_isinstance = isinstance


def enter(name):
    ENTERED.add(name)


# -- membership, identity ------------------------------------------------------------------------------------------------

def is_(a, b):
    if a is b:
        return True
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return False
    if sa and sb:
        x, y = unwrap_decided(a), unwrap_decided(b)
        if x is y:
            return True
        if _type(x) is SymBool and _type(y) is SymBool:
            return sx_eq(x, y)
        return False
    s, o = (a, b) if sa else (b, a)
    if _type(s) is SymVal:
        if o is None:
            return s._sx_is(('none',)) if s._sx_r is None else s._sx_r[0] is None
        if s._sx_r is None and (o is True or o is False):
            return sx_eq(SymBool(C.E.const(s._sx_name + '#b', 'b')), o) if s._sx_spec.kinds == ('bool',) else \
                f_and(s._sx_is(('bool',)), sx_eq(SymBool(C.E.const(s._sx_name + '#b', 'b')), o))
        if s._sx_r is not None:
            r = s._sx_r[0]
            if r is o:
                return True
            if is_sym(r):
                return is_(r, o)
            return False
        if _isinstance(o, (list, tuple, bytes, K.Obj, K.Unconvertible)):
            return s._sx_get() is o
        return False
    if _type(s) is SymBool and (o is True or o is False):
        return s if o is True else f_not(s)
    return False


def unwrap_decided(x):
    while _type(x) is SymVal and x._sx_r is not None:
        x = x._sx_r[0]
    return x


def isnot(a, b):
    return f_not(is_(a, b))


def in_(x, c):
    t = _type(c)
    if t is SymVal:
        c = c._sx_get()
        t = _type(c)
    if issubclass(t, Sym):
        f = getattr(c, '_sx_contains', None)
        if f is not None:
            return f(x)
        return x in c
    if t is tuple or t is list or t is C.SxView or t is K.ListSub or t is K.TupleSub:
        r = []
        for y in c:
            if y is x:
                return True
            e = sx_eq(y, x)
            if e is True:
                return True
            if e is not False:
                r.append(e)
        return f_or(*r)
    if issubclass(t, str) and is_sym(x):
        x = unwrap(x)
        if not isinstance_(x, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand, not " + C.type_name(x))
        return mkbool(simp(z3.Contains(z3.StringVal(c), str_e(x))))
    if t is range and is_sym(x):
        return SymRange(c.start, c.stop, c.step)._sx_contains(x)
    if t in (dict, set, frozenset) and len(c) == 0 and is_sym(x):
        hash(x) if sx_type(x) in (list, dict, set) else None
        return False
    return x in c


def notin(x, c):
    return f_not(in_(x, c))


# -- text ----------------------------------------------------------------------------------------------------------------

def _fmt_value(x, conv, spec):
    if conv == 114:
        x = sx_repr(x)
    elif conv == 115:
        x = sx_str(x)
    elif conv == 97:
        return unmark(ascii(x))
    if spec:
        return unmark(builtins.format(x, spec if _type(spec) is str else str(spec)))
    t = _type(x)
    if t is str:
        return unmark(x)
    if issubclass(t, Sym):
        return sx_str(x)
    f = t.__format__
    if f in (object.__format__, str.__format__, int.__format__, float.__format__):
        return sx_str(x)
    return unmark(builtins.format(x, ''))


def fstr(*args):
    parts = ()
    for a in args:
        if _type(a) is str:
            parts += (a,)
        else:
            parts += parts_of(_fmt_value(*a))
    return join_parts(parts)


def mod(a, b):
    t = _type(a)
    if t is SymVal:
        a = a._sx_get()
        t = _type(a)
    if issubclass(t, str):
        return unmark(a % b)
    return a % b


# -- range ---------------------------------------------------------------------------------------------------------------

class SymRange(Sym):
    """range() with symbolic bounds and a step whose sign is known (it is decided on construction)."""
    __slots__ = ('start', 'stop', 'step', 'cls')

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        self.cls = range

    __class__ = property(lambda self: range)

    def _pos(self):
        return bool(self.step > 0)

    def _sx_contains(self, x):
        x = unwrap(x)
        n = C.num_of(x)
        if n is None:
            return x in range(0) if not is_sym(x) else False
        if n[0] in 'fc':
            return False
        a, b, s = [C.num_of(unwrap(v))[1] for v in (self.start, self.stop, self.step)]
        if n[0] == 'q':
            whole, v = n[1] % 4 == 0, n[1] / 4
        else:
            whole, v = z3.BoolVal(True), n[1]
        if self._pos():
            lim = z3.And(a <= v, v < b)
        else:
            lim = z3.And(a >= v, v > b)
        if _type(self.step) is int and abs(self.step) == 1:
            st = z3.BoolVal(True)
        else:
            st = (v - a) % (s if self._pos() else -s) == 0
        return mkbool(simp(z3.And(whole, lim, st)))

    def __contains__(self, x):
        return bool(self._sx_contains(x))

    def _len(self):
        a, b, s = [C.num_of(unwrap(v))[1] for v in (self.start, self.stop, self.step)]
        if not self._pos():
            a, b, s = b, a, -s
        return z3.If(b > a, (b - a - 1) / s + 1, z3.IntVal(0))

    def _sx_len(self):
        return SymInt(simp(self._len()))

    def __len__(self):
        return C.E.pick(self._len(), conv_int, what='len(range)')

    def __bool__(self):
        return C.E.branch(self._len() > 0)

    def __iter__(self):
        for i in range(len(self)):
            yield self.start + i * self.step

    def __getitem__(self, i):
        i = unwrap(i)
        n = self._sx_len()
        if isinstance_(i, slice) or C.num_of(i) is None:
            return range(*[x if _type(x) is int else x.__index__() for x in (self.start, self.stop, self.step)])[i]
        if f_or(i < -n, i >= n):
            raise IndexError('range object index out of range')
        return self.start + (i if i >= 0 else i + n) * self.step

    def count(self, x):
        return 1 if x in self else 0

    def index(self, x):
        if x not in self:
            raise ValueError('%s is not in range' % (x,))
        return (unwrap(x) - self.start) // self.step

    def __reversed__(self):
        n = len(self)
        for i in range(n):
            yield self[n - 1 - i]

    def __eq__(self, o):
        if not _isinstance(o, range):
            return False
        return f_and(sx_eq(self.start, o.start), sx_eq(self.stop, o.stop), sx_eq(self.step, o.step))

    def __ne__(self, o):
        return f_not(self.__eq__(o))

    __hash__ = None

    def __repr__(self):
        return 'range(%s, %s)' % (self.start, self.stop) if self.step == 1 else 'range(%s, %s, %s)' % (self.start, self.stop, self.step)

    __str__ = __repr__


def h_range(*a):
    a = [unwrap(x) for x in a]
    if not any(is_sym(x) for x in a):
        return range(*a)
    for x in a:
        if not isinstance_(x, (int, SymInt, SymBool)):
            raise TypeError("'%s' object cannot be interpreted as an integer" % C.type_name(x))
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    if len(a) == 2:
        return SymRange(a[0], a[1], 1)
    if a[2] == 0:
        raise ValueError('range() arg 3 must not be zero')
    return SymRange(*a)


# -- builtins ------------------------------------------------------------------------------------------------------------

def h_isinstance(x, c):
    if _type(x) is SymVal and x._sx_r is None:
        ks = [k for k in x._sx_spec.kinds if _isinstance(K.KINDS[k][1], c)]
        return x._sx_is(ks)
    if is_sym(x):
        if _type(x) is SymVal:
            return h_isinstance(x._sx_r[0], c)
        t = sx_type(x)
        for k, (cls, sample) in K.KINDS.items():
            if cls is t:
                return _isinstance(sample, c)
        return _isinstance(x, c)
    return _isinstance(x, c)


def h_type(*a):
    if len(a) == 1:
        return sx_type(a[0])
    return type(*a)


def h_len(x):
    x = unwrap(x)
    f = getattr(_type(x), '_sx_len', None)
    if f is not None:
        return f(x)
    if is_sym(x) and not hasattr(_type(x), '__len__'):
        raise TypeError("object of type '%s' has no len()" % C.type_name(x))
    return len(x)


def h_str(*a, **k):
    if len(a) == 1 and not k:
        return sx_str(a[0])
    return unmark(str(*a, **k))


def h_int(*a, **k):
    if len(a) == 1 and not k:
        x = unwrap(a[0])
        if is_sym(x):
            return sx_int(x)
        return int(x)
    return int(*[unwrap(x) for x in a], **k)


def h_float(*a):
    return sx_float(a[0]) if len(a) == 1 else float(*a)


def h_bool(*a):
    """bool() keeps the outcome symbolic where possible."""
    if len(a) != 1:
        return bool(*a)
    x = unwrap(a[0])
    if _type(x) is SymBool:
        return x
    if _type(x) is SymInt:
        return mkbool(simp(x.e != 0))
    return bool(x)


def h_callable(x):
    return False if is_sym(x) else callable(x)


def h_hash(x):
    return hash(x)


def h_repr(x):
    return sx_repr(x)


def h_format(x, spec=''):
    return _fmt_value(x, -1, spec)


def h_getattr(o, name, *d):
    name = unwrap(name)
    if _type(name) is SymStr:
        name = name._sx_conc() if not C.E.universe else _name_of(o, name)
    return getattr(o, name, *d)


def h_setattr(o, name, v):
    name = unwrap(name)
    if _type(name) is SymStr:
        name = _name_of(o, name)
    return setattr(o, name, v)


def h_hasattr(o, name):
    name = unwrap(name)
    if _type(name) is SymStr:
        name = _name_of(o, name)
    return hasattr(o, name)


def _name_of(o, name):
    for u in sorted(x for x in C.E.universe if _type(x) is str):
        if name == u:
            return u
    return 'sx_no_such_attribute'


def h_issubclass(a, b):
    return issubclass(a, b)


def h_any(xs):
    """any() over an iterable: one formula when the elements are already computed."""
    if _type(xs) in (list, tuple):
        r = []
        for x in xs:
            if _type(x) in (SymBool, bool):
                r.append(x)
            else:
                return any(xs)
        return f_or(*r)
    return any(xs)


def h_all(xs):
    if _type(xs) in (list, tuple):
        r = []
        for x in xs:
            if _type(x) in (SymBool, bool):
                r.append(x)
            else:
                return all(xs)
        return f_and(*r)
    return all(xs)


def h_minmax(which):
    native = min if which == 'min' else max

    def h(*a, **k):
        xs = a if len(a) > 1 else None
        if xs is not None and not k and len(xs) == 2 and all(_type(unwrap(x)) in (SymInt, int) for x in xs) and any(is_sym(x) for x in xs):
            x, y = unwrap(xs[0]), unwrap(xs[1])
            ex, ey = C.num_of(x)[1], C.num_of(y)[1]
            return SymInt(simp(z3.If(ey < ex, ey, ex) if which == 'min' else z3.If(ey > ex, ey, ex)))
        return native(*a, **k)
    return h


def h_set(*a):
    if len(a) == 1:
        x = unwrap(a[0])
        if _type(x) is SxSet:
            return SxSet(x._items, set)
        xs = list(x)
        if _needs_sx(xs):
            r = SxSet([])
            r.update(xs)
            return r
        return set(xs)
    return set(*a)


def h_frozenset(*a):
    r = h_set(*a)
    return SxSet(r._items, frozenset) if _type(r) is SxSet else frozenset(r)


def _needs_sx(xs):
    """Symbolic elements that cannot be hashed consistently with concrete ones outside the universe."""
    return any(_type(unwrap_decided(x)) in (SymVal, SymInt, SymFloat) for x in xs)


def h_dict(*a, **k):
    if len(a) == 1:
        x = unwrap(a[0])
        if _type(x) is SxDict:
            r = SxDict(x._items, dict)
            for n, v in k.items():
                r[n] = v
            return r
        if is_sym(x):
            a = (x,)
    return dict(*a, **k)


def h_super(*a):
    return super(*a)


HANDLERS = {
    isinstance: h_isinstance, type: h_type, len: h_len, str: h_str, int: h_int, float: h_float, bool: h_bool,
    callable: h_callable, hash: h_hash, repr: h_repr, format: h_format, getattr: h_getattr, setattr: h_setattr,
    hasattr: h_hasattr, any: h_any, all: h_all, min: h_minmax('min'), max: h_minmax('max'), range: h_range,
    set: h_set, frozenset: h_frozenset, dict: h_dict,
}

_BUILTIN = types.BuiltinFunctionType
_CMETHOD = type(re.compile('').match)
_METHDESC = type(str.join)
_WRAPDESC = type(object.__init__)


# -- regular expressions -------------------------------------------------------------------------------------------------

def _rx_class(items, flags):
    import re._constants as sc
    rs = []
    neg = False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            rs.append(_rx_lit(av, flags))
        elif op is sc.RANGE:
            rs.append(z3.Range(chr(av[0]), chr(av[1])))
            if flags & re.I:
                for lo, hi in ((97, 122), (65, 90)):
                    a, b = max(av[0], lo), min(av[1], hi)
                    if a <= b:
                        d = -32 if lo == 97 else 32
                        rs.append(z3.Range(chr(a + d), chr(b + d)))
        elif op is sc.CATEGORY:
            rs.append(_rx_cat(av))
        else:
            raise Degrade('regex class %s' % op)
    r = z3.Union(*rs) if len(rs) > 1 else rs[0]
    return z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(r)) if neg else r


def _rx_lit(c, flags):
    s = chr(c)
    if flags & re.I and s.isascii() and s.isalpha():
        return z3.Union(z3.Re(s.lower()), z3.Re(s.upper()))
    return z3.Re(s)


def _rx_cat(av):
    import re._constants as sc
    dig = z3.Range('0', '9')
    word = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), dig, z3.Re('_'))
    sp = z3.Union(*[z3.Re(c) for c in ' \t\n\r\x0b\x0c'])
    any_ = z3.AllChar(z3.ReSort(z3.StringSort()))
    t = {sc.CATEGORY_DIGIT: dig, sc.CATEGORY_WORD: word, sc.CATEGORY_SPACE: sp}
    n = {sc.CATEGORY_NOT_DIGIT: dig, sc.CATEGORY_NOT_WORD: word, sc.CATEGORY_NOT_SPACE: sp}
    if av in t:
        return t[av]
    if av in n:
        return z3.Intersect(any_, z3.Complement(n[av]))
    raise Degrade('regex category')


_EPS = None


def _rx(seq, flags):
    """Regex subset (ASCII subject) -> z3 regex; raises Degrade for constructs outside the subset."""
    import re._constants as sc
    out = []
    for op, av in seq:
        if op is sc.LITERAL:
            out.append(_rx_lit(av, flags))
        elif op is sc.NOT_LITERAL:
            out.append(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(_rx_lit(av, flags))))
        elif op is sc.ANY:
            a = z3.AllChar(z3.ReSort(z3.StringSort()))
            out.append(a if flags & re.S else z3.Intersect(a, z3.Complement(z3.Re('\n'))))
        elif op is sc.IN:
            out.append(_rx_class(av, flags))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            r = _rx(sub, flags)
            if hi is sc.MAXREPEAT:
                s = z3.Star(r)
                out.append(s if lo == 0 else z3.Concat(*([r] * lo + [s])))
            else:
                opts = [z3.Re('')] if lo == 0 else []
                for n in range(max(lo, 1), hi + 1):
                    opts.append(z3.Concat(*([r] * n)) if n > 1 else r)
                out.append(z3.Union(*opts) if len(opts) > 1 else opts[0])
        elif op is sc.SUBPATTERN:
            out.append(_rx(av[3], flags))
        elif op is sc.BRANCH:
            out.append(z3.Union(*[_rx(x, flags) for x in av[1]]))
        else:
            raise Degrade('regex construct %s' % op)
    if not out:
        return z3.Re('')
    return z3.Concat(*out) if len(out) > 1 else out[0]


def regex_formula(pat, mode, e):
    """z3 formula: pattern matches string e in the mode ('match', 'fullmatch', 'search')."""
    import re._parser as sp
    import re._constants as sc
    flags = pat.flags & (re.I | re.S | re.M)
    p = list(sp.parse(pat.pattern, pat.flags & ~re.DEBUG))
    begin = end = False
    if p and p[0][0] is sc.AT and p[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        if flags & re.M and p[0][1] is sc.AT_BEGINNING and mode == 'search':
            raise Degrade('multiline ^')
        begin = True
        p = p[1:]
    nl = False
    if p and p[-1][0] is sc.AT and p[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        if flags & re.M and p[-1][1] is sc.AT_END:
            raise Degrade('multiline $')
        end = True
        nl = p[-1][1] is sc.AT_END
        p = p[:-1]
    if any(op is sc.AT for op, _ in p):
        raise Degrade('regex anchor inside the pattern')
    r = _rx(p, flags)
    al = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    tail = None if mode == 'fullmatch' else (z3.Option(z3.Re('\n')) if nl else None) if end else al
    head = al if mode == 'search' and not begin else None
    rr = [x for x in (head, r, tail) if x is not None]
    return simp(z3.InRe(e, z3.Concat(*rr) if len(rr) > 1 else rr[0]))


class SymMatch:
    """Truthy match object of a symbolic string (groups are outside the model)."""
    def __init__(self, s):
        self.string = s

    def __getattr__(self, name):
        raise Degrade('match.%s' % name)


def h_pattern(pat, mode, a, k={}):
    s = unwrap(a[0])
    if _type(s) is not SymStr:
        return getattr(pat, mode)(*a, **k)
    pos = a[1] if len(a) > 1 else k.get('pos', 0)
    end = a[2] if len(a) > 2 else k.get('endpos', None)
    if len(a) > 3 or is_sym(pos) or is_sym(end) or _type(pos) is not int or pos > 0 or not (end is None or _type(end) is int):
        return getattr(pat, mode)(s._sx_conc(), *a[1:], **k)
    # matching up to endpos is matching the string cut there
    m = C.E.branch(regex_formula(pat, mode, s.e if end is None else z3.SubString(s.e, 0, max(end, 0))))
    return SymMatch(s) if m else None


# -- calls ---------------------------------------------------------------------------------------------------------------

def _sym_text(x):
    return is_sym(x) or (_type(x) is str and C.M0 in x)


def _marked(x):
    x = unwrap(x)
    if is_sym(x) and sx_type(x) in (str, K.StrSub):
        return mark(x)
    return x


def h_strmethod(f, s, a, k):
    name = f.__name__
    if name == 'join':
        xs = list(unwrap(a[0]))
        out = ()
        for i, x in enumerate(xs):
            x = unwrap(x)
            if not isinstance_(x, (str, SymStr)):
                raise TypeError('sequence item %d: expected str instance, %s found' % (i, C.type_name(x)))
            out += ((s,) if i and s else ()) + parts_of(x)
        return join_parts(out)
    if name == 'format' or name == 'format_map':
        return unmark(f(*a, **k))
    if any(is_sym(x) for x in a):
        if name in ('startswith', 'endswith', '__eq__', '__ne__', '__contains__', '__add__'):
            r = getattr(SymStr, name)(SymStr(z3.StringVal(s)), *a)
            return r
        a = [x._sx_conc() if _type(x) is SymStr else x for x in map(unwrap, a)]
        f = getattr(s, name)
    return unmark(f(*a, **k))


def call(f, *a, **k):
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    t = _type(f)
    if t is _BUILTIN or t is _CMETHOD:
        s = f.__self__
        ts = _type(s)
        if ts is str:
            if f.__name__ == 'join' or f.__name__ == 'format' or any(_sym_text(x) for x in a):
                return h_strmethod(f, s, a, k)
        elif ts is re.Pattern and f.__name__ in ('match', 'fullmatch', 'search') and a and is_sym(a[0]):
            return h_pattern(s, f.__name__, a, k)
        elif s is re or (ts is types.ModuleType and s.__name__ == 're'):
            pass
        return f(*a, **k)
    if t is _METHDESC and a and is_sym(a[0]):
        # unbound method of a builtin type on a proxy, e.g. str.lower(x)
        return getattr(unwrap(a[0]), f.__name__)(*a[1:], **k)
    if t is _WRAPDESC and a and is_sym(a[0]) and f.__name__ in ('__eq__', '__ne__', '__len__', '__str__', '__repr__', '__contains__'):
        return getattr(unwrap(a[0]), f.__name__)(*a[1:], **k)
    if f is re.match or f is re.fullmatch or f is re.search:
        if len(a) > 1 and is_sym(a[1]):
            return h_pattern(re.compile(a[0], *a[2:], **k), f.__name__, (a[1],))
    return f(*a, **k)


def chain(a, *rest):
    """a comparison chain: pairs of (test, operand thunk)."""
    for i in range(0, len(rest), 2):
        b = rest[i + 1]()
        r = rest[i](a, b)
        if i + 2 >= len(rest) or not r:
            return r
        a = b


def sequence(x):
    """Does a sequence pattern apply to x?"""
    return call(isinstance, x, collections.abc.Sequence) and not call(isinstance, x, (str, bytes, bytearray))


def mapping_(x):
    return call(isinstance, x, collections.abc.Mapping)


def rest_(x, *keys):
    out = call(dict, x)
    for k in keys:
        del out[k]
    return out


def matcharg(x, cls, i):
    return call(getattr, x, cls.__match_args__[i])


EXPORTS = {
    '_sx_chain_': chain, '_sx_sequence_': sequence, '_sx_mapping_': mapping_, '_sx_rest_': rest_, '_sx_matcharg_': matcharg,
    '_sx_call_': call, '_sx_is_': is_, '_sx_isnot_': isnot, '_sx_in_': in_, '_sx_notin_': notin,
    '_sx_fstr_': fstr, '_sx_mod_': mod, '_sx_enter_': enter,
}
