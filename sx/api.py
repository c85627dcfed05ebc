"""The interface a harness is written against; SymH runs it symbolically, ConcH replays one model on plain code."""
from . import kinds as K


class CheckFailed(BaseException):
    """A property assertion failed during a concrete replay."""


class AssumeFailed(BaseException):
    """The replayed model does not satisfy an assumption."""


class Base:
    K = K
    Spec = K.Spec

    def __init__(self, tier='quick'):
        self.tier = tier
        self.thorough = tier == 'thorough'

    def bound(self, quick, thorough):
        return thorough if self.thorough else quick

    def attempt(self, f, *a, **k):
        """Run f; returns (True, result) or (False, exception)."""
        try:
            return True, f(*a, **k)
        except Exception as e:
            return False, e

    def flip(self, name):
        """A Boolean decided by branching (a plain bool)."""
        return self.choice(name, (False, True))

    def ite(self, c, a, b):
        return a if c else b


class SymH(Base):
    symbolic = True

    def __init__(self, tier='quick'):
        super().__init__(tier)
        from . import core, rt
        self.c, self.rt = core, rt

    @property
    def _e(self):
        return self.c.E

    def universe(self, *xs):
        """Declare the concrete strings (and ints) symbolic dictionary keys may coincide with."""
        self._e.universe = frozenset(self._e.universe | set(xs))

    def bool(self, name):
        import z3
        return self.c.SymBool(self._e.const(name + '#b', 'b'))

    def int(self, name, lo=None, hi=None):
        import z3
        e = self._e.const(name + '#i', 'i')
        if lo is not None:
            self._e.assume(e >= lo)
        if hi is not None:
            self._e.assume(e <= hi)
        return self.c.SymInt(e)

    def str(self, name, among=None, maxlen=None, ascii=False):
        import z3
        mk = ('str', name)
        if mk in self._e.memo:
            return self._e.memo[mk]
        e = self._e.const(name + '#s', 's')
        if among is not None:
            self._e.assume(z3.Or(*[e == z3.StringVal(x) for x in among]))
        if maxlen is not None:
            self._e.assume(z3.Length(e) <= maxlen)
        if ascii:
            self._e.assume(z3.InRe(e, z3.Star(z3.Union(z3.Range(' ', '~'), z3.Re('\n')))))
        r = self._e.memo[mk] = self.c.SymStr(e)
        return r

    def choice(self, name, options):
        options = tuple(options)
        mk = ('choice', name)
        r = self._e.memo.get(mk)
        if r is None:
            r = self._e.memo[mk] = self._e.choose(name, len(options)) if len(options) > 1 else 0
        return options[r]

    def value(self, name, spec=None):
        mk = ('value', name)
        if mk not in self._e.memo:
            self._e.memo[mk] = self.c.SymVal(name, spec or K.Spec())
        return self._e.memo[mk]

    def kind(self, v):
        """The kind of a symbolic value (decides it)."""
        v._sx_get()
        return v._sx_r[1]

    def is_kind(self, v, *kinds):
        """Truth (possibly symbolic) of the value having one of the kinds."""
        if type(v) is self.c.SymVal and v._sx_r is None:
            return v._sx_is(kinds)
        return v._sx_r[1] in kinds

    def assume(self, c):
        self._e.assume(self.c.zb(c))

    def check(self, c, msg):
        c = self.c.unwrap(c) if type(c) is self.c.SymVal else c
        if type(c) is self.c.SymBool:
            self._e.check(c.e, msg)
        else:
            self._e.check(bool(c), msg)

    def cover(self, label):
        self._e.covers.add(label)

    def out(self, label, value):
        self._e.outs.append((label, value))

    def eq(self, a, b):
        return self.c.sx_eq(a, b)

    def same(self, a, b):
        """Same object, or scalars of the same type and value."""
        return self.c.sx_same(a, b)

    def And(self, *xs):
        return self.c.f_and(*xs)

    def Or(self, *xs):
        return self.c.f_or(*xs)

    def Not(self, x):
        return self.c.f_not(x)

    def implies(self, a, b):
        return self.c.f_or(self.c.f_not(a), b)

    def iff(self, a, b):
        return self.c.sx_eq(self.c.mkbool(self.c.zb(a)), self.c.mkbool(self.c.zb(b)))

    def contains(self, text, part):
        """Text contains the part."""
        return self.rt.in_(part, text)

    def text(self, x):
        """str(x), possibly symbolic."""
        return self.c.sx_str(x)

    def regex(self, pattern, flags, mode, s):
        """Oracle: pattern matches the (symbolic) string in the mode, as a formula."""
        import re
        return self.c.mkbool(self.rt.regex_formula(re.compile(pattern, flags), mode, self.c.str_e(s)))

    def num(self, v):
        return v

    def plain(self, x):
        return x


class ConcH(Base):
    symbolic = False

    def __init__(self, model, tier='quick'):
        super().__init__(tier)
        self.model = model
        self.cache = {}
        self.covers = set()
        self.outs = []
        self.inputs = {}

    def universe(self, *xs):
        pass

    def _in(self, name, v):
        self.inputs[name] = v
        return v

    def bool(self, name):
        return self._in(name, bool(self.model.get(name + '#b', False)))

    def int(self, name, lo=None, hi=None):
        v = self.model.get(name + '#i')
        if v is None:
            v = lo if lo is not None else min(0, hi) if hi is not None else 0
        return self._in(name, v)

    def str(self, name, among=None, maxlen=None, ascii=False):
        v = self.model.get(name + '#s')
        if v is None:
            v = among[0] if among else ''
        return self._in(name, v)

    def choice(self, name, options):
        options = tuple(options)
        i = self.model.get(name + '#c', 0) or 0
        self._in(name, repr(options[i]))
        return options[i]

    def value(self, name, spec=None):
        if name not in self.cache:
            from .plain import build
            self.cache[name] = build(name, spec or K.Spec(), self.model.get)
            self._in(name, self.cache[name])
        return self.cache[name]

    def kind(self, v):
        if v is None:
            return 'none'
        for k, (cls, _) in K.KINDS.items():
            if cls is type(v):
                if k == 'float' and v in (float('inf'), float('-inf')) or v != v:
                    return 'fspecial'
                return k
        raise TypeError(type(v))

    def is_kind(self, v, *kinds):
        return self.kind(v) in kinds

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        if not c:
            raise CheckFailed(msg)

    def cover(self, label):
        self.covers.add(label)

    def out(self, label, value):
        self.outs.append((label, K.norm(value)))

    def eq(self, a, b):
        return a is b or bool(a == b)

    def same(self, a, b):
        return a is b or (type(a) is type(b) and isinstance(a, (bool, int, float, str)) and a == b)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or b

    def iff(self, a, b):
        return bool(a) == bool(b)

    def contains(self, text, part):
        return part in text

    def text(self, x):
        return str(x)

    def regex(self, pattern, flags, mode, s):
        import re
        return getattr(re.compile(pattern, flags), mode)(s) is not None

    def num(self, v):
        return v

    def plain(self, x):
        return x
