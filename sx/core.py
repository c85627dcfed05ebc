"""Symbolic execution core: path exploration driven by z3, and the symbolic proxies.

The code under test runs natively in CPython; symbolic values are proxies.  Whenever a symbolic truth value is needed
(`bool()` of a SymBool) the engine asks the solver which outcomes are feasible under the path condition and explores
all of them (re-execution DFS over decision prefixes).
"""
import re
import sys
import time
from fractions import Fraction

import z3

from . import kinds as K

E = None                       # the current engine
HCONST = 0x5A5A5A5             # hash of symbolic scalars that equal no declared concrete value


class Steer(BaseException):
    """Steering exceptions are BaseException so that `except Exception` in the code under test cannot catch them."""
    def __init__(self, *a):
        super().__init__(*a)
        if E is not None and E.dead is None:
            E.dead = self


class PathAbort(Steer):
    """The path is infeasible (a false assumption)."""


class PathStop(Steer):
    """The path ends here (violation found)."""


class Degrade(Steer):
    """The path needs an operation that cannot be encoded."""


class Diverge(Steer):
    """Re-execution took another course than the recorded prefix (engine or harness not deterministic)."""


_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)
ctx = z3.main_ctx()


def _raw(fn):
    try:
        return fn.__defaults__[0].f          # the bare foreign function, without the error check after every call
    except Exception:                        # another layout of the bindings
        return fn


_decl_kind = _raw(z3.Z3_get_decl_kind)
_app_decl = _raw(z3.Z3_get_app_decl)
_ast_id = _raw(z3.Z3_get_ast_id)
_ctxref = ctx.ref()
_OP_TRUE, _OP_FALSE, _OP_NOT = z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_NOT
_CONST = {}          # (name, sort name) -> constant, kept for the life of the process
_KEEP = {}           # ast id -> expression that is simplified already and kept alive


def bkind(e):
    """Declaration kind of a Boolean expression (no quantifiers are ever built)."""
    return _decl_kind(_ctxref, _app_decl(_ctxref, e.ast))


def ast_id(e):
    return _ast_id(_ctxref, e.ast)


def simp(e):
    if _KEEP.get(ast_id(e)) is e:
        return e
    return z3.simplify(e)


def keep(e):
    """Cache an expression for the life of the process."""
    e = z3.simplify(e)
    if len(_KEEP) < 200000:
        _KEEP[ast_id(e)] = e
    return e


_ints = {}


def ival(n):
    r = _ints.get(n)
    if r is None:
        r = z3.IntVal(n)
        if len(_ints) < 10000:
            _ints[n] = r
    return r


def mkconst(name, sort):
    k = (name, sort)
    v = _CONST.get(k)
    if v is None:
        v = _CONST[k] = z3.Const(name, {'i': z3.IntSort, 'b': z3.BoolSort, 's': z3.StringSort}[sort]())
        _KEEP[ast_id(v)] = v
    return v


_TAGEQ = {}


def tag_eq(name, kinds):
    """Cached formula: the value `name` has one of the kinds."""
    k = (name, kinds)
    e = _TAGEQ.get(k)
    if e is None:
        t = mkconst(name + '#k', 'i')
        xs = [t == ival(K.IDX[x]) for x in kinds]
        e = _TAGEQ[k] = keep(z3.Or(*xs) if len(xs) > 1 else xs[0])
        _KEEP[ast_id(e)] = e
    return e


class Engine:
    def __init__(self, timeout_ms=4000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.sol_steps = []          # [(step, pushed)]
        self.frontier = []           # [(prefix, model)]
        self.stats = dict(paths=0, queries=0, solver_s=0.0, decisions=0, forced=0, checks=0, check_queries=0,
                          aborted=0, unknown=0, degraded=0)
        self.steps = []

    # -- exploration -------------------------------------------------------------------------------------------------
    def start(self, prefix, model=None):
        n = 0
        lim = min(len(prefix), len(self.sol_steps))
        while n < lim and self.sol_steps[n][0] == prefix[n]:
            n += 1
        pops = sum(1 for s in self.sol_steps[n:] if s[1])
        if pops:
            self.solver.pop(pops)
        del self.sol_steps[n:]
        self.aligned = n
        self.prefix = prefix
        self.pos = 0
        self.steps = []
        self.model = model
        self.known = {}
        self.keep = []
        self.vars = {}
        self.memo = {}
        self.marks = []
        self.choices = {}
        self.universe = frozenset()
        self.violations = []
        self.degraded = None
        self.outs = []
        self.covers = set()
        self.nconc = 0
        self.prefix_model = model
        self.dead = None
        self.deadline = None

    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.perf_counter() - t
        self.stats['queries'] += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort('infeasible prefix')
            if r != z3.sat:
                self.stats['unknown'] += 1
                raise Degrade('solver: unknown')
            self.model = self.solver.model()
        return self.model

    def _assert(self, e, step):
        self.solver.push()
        self.solver.add(e)
        self.sol_steps.append((step, True))

    def _step(self, step, e):
        """Record a step; e is the assertion it adds (None if implied)."""
        i = len(self.steps)
        self.steps.append(step)
        if i < self.aligned:
            return
        if e is None:
            self.sol_steps.append((step, False))
        else:
            self._assert(e, step)

    def _in_prefix(self):
        return len(self.steps) < len(self.prefix)

    def _eval(self, e):
        v = self.get_model().eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, e):
        if self.dead:
            raise PathStop('unwinding')
        e = simp(e)
        k = bkind(e)
        if k == _OP_TRUE:
            return True
        if k == _OP_FALSE:
            return False
        if k == _OP_NOT:
            return not self.branch(e.arg(0))
        key = ast_id(e)
        if key in self.known:
            return self.known[key]
        if self._in_prefix():
            step = self.prefix[len(self.steps)]
            if step[0] != 'b':
                raise Diverge('%r at %d' % (step, len(self.steps)))
            v = step[1]
            self._step(step, None if step[2] else (e if v else z3.Not(e)))
        else:
            self.stats['decisions'] += 1
            v = self._eval(e)
            if v is None:
                r = self._check(e)
                if r == z3.unknown:
                    self.stats['unknown'] += 1
                    raise Degrade('solver: unknown')
                v = r == z3.sat
                if v:
                    self.model = self.solver.model()
            ne = z3.Not(e)
            self.solver.push()
            self.solver.add(ne if v else e)
            r = self._check()
            alt = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            if r == z3.unsat:
                self.stats['forced'] += 1
                self._step(('b', v, True), None)
            else:
                if r != z3.sat:
                    self.stats['unknown'] += 1
                self.frontier.append((self.steps + [('b', not v, False)], alt))
                self._step(('b', v, False), e if v else ne)
        self.keep.append(e)
        self.known[key] = v
        return v

    def learned(self, e):
        """Truth of e if it is decided on this path already, else None."""
        k = bkind(e)
        if k == _OP_NOT:
            r = self.learned(e.arg(0))
            return None if r is None else not r
        return self.known.get(ast_id(e))

    def learn(self, e):
        v = True
        while bkind(e) == _OP_NOT:
            e = e.arg(0)
            v = not v
        self.keep.append(e)
        self.known[ast_id(e)] = v

    def choose(self, name, n):
        """A free control variable with n values: one path per value."""
        if self.dead:
            raise PathStop('unwinding')
        if self._in_prefix():
            step = self.prefix[len(self.steps)]
            if step[0] != 'o' or step[1] != name:
                raise Diverge('%r at %d (choice %s)' % (step, len(self.steps), name))
            i = step[2]
        else:
            self.stats['decisions'] += 1
            i = 0
            for j in range(n - 1, 0, -1):
                self.frontier.append((self.steps + [('o', name, j)], self.model))
            step = ('o', name, 0)
        self._step(step, None)
        self.choices[name + '#c'] = i
        return i

    def assume(self, e):
        if self.dead:
            raise PathStop('unwinding')
        e = simp(e)
        k = bkind(e)
        if k == _OP_TRUE:
            return
        if k == _OP_FALSE:
            raise PathAbort()
        if self.learned(e) is True:
            return
        if self._in_prefix():
            step = self.prefix[len(self.steps)]
            if step[0] != 'a':
                raise Diverge('%r at %d' % (step, len(self.steps)))
            self._step(step, e)
        else:
            ok = self.model is not None and self._eval(e)
            self._step(('a',), e)
            if not ok:
                self.model = None
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.sat:
                    self.model = self.solver.model()
                else:
                    self.stats['unknown'] += 1
                    raise Degrade('solver: unknown')
        self.learn(e)

    def pick(self, expr, conv, limit=40, what='value'):
        """Concretise expr exhaustively: one path per feasible value (bounded by limit)."""
        if self.dead:
            raise PathStop('unwinding')
        expr = simp(expr)
        c = conv(expr)
        if c is not None:
            return c
        mk = ('pick', expr.get_id())
        if mk in self.memo:
            return self.memo[mk][0]
        for _ in range(limit):
            if self._in_prefix():
                step = self.prefix[len(self.steps)]
                if step[0] != 'c':
                    raise Diverge('%r at %d' % (step, len(self.steps)))
                val = step[1]
                ve = self._val(expr, val)
                self._step(step, None if step[3] else (expr == ve if step[2] else expr != ve))
                if step[2]:
                    self.memo[mk] = (val, expr)
                    return val
                continue
            ve = self.get_model().eval(expr, model_completion=True)
            val = conv(ve)
            if val is None:
                raise Degrade('cannot concretise %s' % what)
            ve = self._val(expr, val)
            self.solver.push()
            self.solver.add(expr != ve)
            r = self._check()
            alt = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            if r == z3.unsat:
                self._step(('c', val, True, True), None)
            else:
                if r != z3.sat:
                    self.stats['unknown'] += 1
                self.frontier.append((self.steps + [('c', val, False, False)], alt))
                self._step(('c', val, True, False), expr == ve)
            self.memo[mk] = (val, expr)
            return val
        self.stats['unbounded_pick'] = self.stats.get('unbounded_pick', 0) + 1
        raise Degrade('unbounded concretisation of %s' % what)

    @staticmethod
    def _val(expr, val):
        s = expr.sort()
        if s == z3.IntSort():
            return z3.IntVal(val)
        if s == z3.StringSort():
            return z3.StringVal(val)
        return z3.BoolVal(val)

    def check(self, e, msg):
        """The assertion e must hold for all values on this path."""
        if self.dead:
            raise PathStop('unwinding')
        self.stats['checks'] += 1
        if e is True:
            return
        if e is False:
            self._violate(msg, None)
        e = simp(e)
        if z3.is_true(e):
            return
        k = self.learned(e)
        if k is True:
            return
        if self._in_prefix():
            return                   # discharged by the path this one forked from, under the same path condition
        if k is False or z3.is_false(e):
            self._violate(msg, None)
        if self._eval(e) is False:
            self._violate(msg, self.model)
        self.solver.push()
        self.solver.add(z3.Not(e))
        r = self._check()
        self.stats['check_queries'] += 1
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.sat:
            self._violate(msg, m)
        if r != z3.unsat:
            self.stats['unknown'] += 1
            raise Degrade('solver: unknown on assertion')
        self.learn(e)

    def _violate(self, msg, model):
        if model is None:
            if self._in_prefix():
                raise PathStop('violation in prefix')     # reported by the parent path already
            model = self.get_model()
        self.violations.append((plain_message(msg), self.extract(model)))
        raise PathStop()

    # -- variables ---------------------------------------------------------------------------------------------------
    def const(self, name, sort):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = mkconst(name, sort)
        return v

    def extract(self, model):
        out = dict(self.choices)
        for name, v in self.vars.items():
            out[name] = zval(model.eval(v, model_completion=True))
        return out


_esc = re.compile(r'\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})')


def zstr(v):
    return _esc.sub(lambda m: chr(int(m.group(1) or m.group(2), 16)), v.as_string())


def zval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_string_value(v):
        return zstr(v)
    return None


def conv_int(v):
    return v.as_long() if z3.is_int_value(v) else None


def conv_str(v):
    return zstr(v) if z3.is_string_value(v) else None


# ---------------------------------------------------------------------------------------------------------------------
# proxies

class Sym:
    __slots__ = ()


def is_sym(x):
    return isinstance_(x, Sym)


def isinstance_(x, c):
    """isinstance on the real type of a proxy."""
    return issubclass(type(x), c)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zb(x):
    """z3 Bool of a bool / SymBool."""
    if x is True:
        return _TRUE
    if x is False:
        return _FALSE
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymVal:
        return zb(x._sx_get())
    return _TRUE if x else _FALSE


def f_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            out.append(zb(x))
    if not out:
        return True
    return mkbool(simp(z3.And(*out))) if len(out) > 1 else mkbool(out[0])


def f_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(zb(x))
    if not out:
        return False
    return mkbool(simp(z3.Or(*out))) if len(out) > 1 else mkbool(out[0])


def f_not(x):
    if x is True:
        return False
    if x is False:
        return True
    return mkbool(simp(z3.Not(zb(x))))


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return E.branch(self.e)

    def __eq__(self, o):
        return sx_eq(self, o)

    def __ne__(self, o):
        return f_not(sx_eq(self, o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __and__(self, o):
        return f_and(self, o) if type(o) in (bool, SymBool) else bool(self) & o

    def __or__(self, o):
        return f_or(self, o) if type(o) in (bool, SymBool) else bool(self) | o

    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return f_not(sx_eq(self, o)) if type(o) in (bool, SymBool) else bool(self) ^ o

    __rxor__ = __xor__

    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __neg__(self): return -self._num()

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_sx'):
            raise AttributeError(name)
        return getattr(bool(self), name)


def num_of(x):
    """('i', int expr) | ('q', quarter-unit int expr) | ('c', Fraction) | ('f', special float) | None."""
    t = type(x)
    if t is SymInt:
        return ('i', x.e)
    if t is SymFloat:
        return ('q', x.q)
    if t is SymBool:
        return ('i', z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if t is bool or t is int or (issubclass(t, int) and not issubclass(t, Sym)):
        return ('i', z3.IntVal(int(x)))
    if issubclass(t, float) and not issubclass(t, Sym):
        if x != x or x in (float('inf'), float('-inf')):
            return ('f', float(x))
        fr = Fraction(x) * 4
        if fr.denominator == 1:
            return ('q', z3.IntVal(fr.numerator))
        return ('c', fr)
    return None


_REL = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b}


def num_rel(op, a, b):
    f = _REL[op]
    if a[0] == 'f' or b[0] == 'f':
        x = a[1] if a[0] == 'f' else 0.0
        y = b[1] if b[0] == 'f' else 0.0
        return f(x, y)
    if a[0] == b[0] == 'i' or a[0] == b[0] == 'q':
        return mkbool(simp(f(a[1], b[1])))
    if a[0] == 'c' and b[0] == 'c':
        return f(a[1], b[1])

    def real(z):
        if z[0] == 'c':
            return z3.RealVal(z[1])
        return z3.ToReal(z[1] * 4 if z[0] == 'i' else z[1])
    if a[0] == 'c' or b[0] == 'c':
        return mkbool(simp(f(real(a), real(b))))
    x = a[1] * 4 if a[0] == 'i' else a[1]
    y = b[1] * 4 if b[0] == 'i' else b[1]
    return mkbool(simp(f(x, y)))


def _cmp(op):
    def m(self, o):
        if type(o) is SymVal:
            o = o._sx_get()
        b = num_of(o)
        if b is None:
            return NotImplemented
        return num_rel(op, num_of(self), b)
    return m


class SymInt(Sym):
    __slots__ = ('e', 'cls')

    def __init__(self, e, cls=int):
        self.e = e
        self.cls = cls

    __class__ = property(lambda self: self.cls)

    def __bool__(self):
        return E.branch(self.e != 0)

    def __eq__(self, o):
        return sx_eq(self, o)

    def __ne__(self, o):
        return f_not(sx_eq(self, o))

    def __hash__(self):
        c = conv_int(simp(self.e))
        if c is not None:
            return hash(c)
        for u in E.universe:
            if type(u) is int and E.branch(self.e == u):
                return hash(u)
        return HCONST

    def __index__(self):
        return E.pick(self.e, conv_int, what='int')

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')

    def _bin(self, o, f):
        if type(o) is SymVal:
            o = o._sx_get()
        if type(o) is SymFloat or (isinstance_(o, float) and not isinstance_(o, Sym)):
            return f(sx_float(self), o, True)
        n = num_of(o)
        if n is None or n[0] != 'i':
            return NotImplemented
        return f(self.e, n[1], False)

    def __add__(self, o): return self._bin(o, lambda a, b, fl: a + b if fl else SymInt(a + b))
    def __radd__(self, o): return self._bin(o, lambda a, b, fl: b + a if fl else SymInt(b + a))
    def __sub__(self, o): return self._bin(o, lambda a, b, fl: a - b if fl else SymInt(a - b))
    def __rsub__(self, o): return self._bin(o, lambda a, b, fl: b - a if fl else SymInt(b - a))
    def __mul__(self, o):
        if type(o) in (str, list, tuple):
            return o * self.__index__()
        return self._bin(o, lambda a, b, fl: a * b if fl else SymInt(a * b))
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def _divmod(self, o):
        n = num_of(o)
        if n is None or n[0] != 'i':
            return None
        if E.branch(n[1] == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        a, b = self.e, n[1]
        # python floor division from z3's euclidean one
        q, r = a / b, a % b
        adj = z3.And(b < 0, r != 0)
        return z3.If(adj, q - 1, q), z3.If(adj, r + b, r)

    def __floordiv__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else SymInt(r[0])

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else SymInt(r[1])

    def __rfloordiv__(self, o):
        return SymInt(num_of(o)[1]) // self

    def __rmod__(self, o):
        if type(o) is str:
            return NotImplemented
        return SymInt(num_of(o)[1]) % self

    def __repr__(self):
        return mark(sx_repr(self))

    def __str__(self):
        return mark(sx_str(self))

    def __format__(self, spec):
        if not spec:
            return self.__str__()
        return format(self.__index__(), spec)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_sx'):
            raise AttributeError(name)
        return getattr(self.__index__(), name)


class SymFloat(Sym):
    """A float whose value is q/4 (exactly representable)."""
    __slots__ = ('q', 'cls', 'big')

    def __init__(self, q, cls=float, big=False):
        self.q = q
        self.cls = cls
        self.big = big          # may be so large that its text has an exponent

    __class__ = property(lambda self: self.cls)

    def __bool__(self):
        return E.branch(self.q != 0)

    def __eq__(self, o):
        return sx_eq(self, o)

    def __ne__(self, o):
        return f_not(sx_eq(self, o))

    def __hash__(self):
        for u in E.universe:
            if type(u) in (int, float) and sx_eq(self, u):
                return hash(u)
        return HCONST

    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')

    def _conc(self):
        return E.pick(self.q, conv_int, what='float') / 4

    def __float__(self):
        return self._conc()

    def __int__(self):
        return int(self._conc())

    def _q(self, o):
        n = num_of(o)
        if n is None:
            return None
        return n[1] * 4 if n[0] == 'i' else n[1] if n[0] == 'q' else None

    def __add__(self, o):
        q = self._q(o)
        return NotImplemented if q is None else SymFloat(self.q + q)
    __radd__ = __add__

    def __sub__(self, o):
        q = self._q(o)
        return NotImplemented if q is None else SymFloat(self.q - q)

    def __rsub__(self, o):
        q = self._q(o)
        return NotImplemented if q is None else SymFloat(q - self.q)

    def __mul__(self, o): return self._conc() * o
    __rmul__ = __mul__
    def __neg__(self): return SymFloat(-self.q)
    def __pos__(self): return self
    def __abs__(self): return SymFloat(z3.If(self.q >= 0, self.q, -self.q))

    def is_integer(self):
        return mkbool(simp(self.q % 4 == 0))

    def __repr__(self):
        return mark(sx_repr(self))

    def __str__(self):
        return mark(sx_str(self))

    def __format__(self, spec):
        if not spec:
            return self.__str__()
        return format(self._conc(), spec)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_sx'):
            raise AttributeError(name)
        return getattr(self._conc(), name)


def _quote_e(e):
    """repr() of a symbolic string: quoted, with an uninterpreted escaping."""
    return z3.Concat(z3.StringVal("'"), _ESC(e), z3.StringVal("'"))


_ESC = z3.Function('py_escape', z3.StringSort(), z3.StringSort())


class SymStr(Sym):
    """Symbolic string: a z3 expression, or a tuple of parts (str | proxies) rendered lazily."""
    __slots__ = ('_e', 'parts', 'cls', '_h')

    def __init__(self, e=None, cls=str, parts=None):
        self._e = e
        self.parts = parts
        self.cls = cls
        self._h = None

    __class__ = property(lambda self: self.cls)

    @property
    def e(self):
        self._sx_settle()
        if self._e is None:
            zs = [z3.StringVal(p) if type(p) is str else p.z() for p in self.parts]
            self._e = z3.Concat(*zs) if len(zs) > 1 else zs[0]
        return self._e

    def _sx_settle(self):
        """Renders the values whose kind was decided since."""
        if self._e is None and self.parts is not None and any(type(p) is Atom and p.late() for p in self.parts):
            parts = ()
            for p in self.parts:
                parts += parts_of(sx_repr(p.obj)) if type(p) is Atom and p.late() else (p,)
            j = join_parts(parts)
            self.parts = j.parts if type(j) is SymStr and j.parts is not None else (j,) if type(j) is str else (Atom('s', j),)

    def _sx_parts(self):
        self._sx_settle()
        return self.parts if self.parts is not None else (Atom('s', self),)

    def __bool__(self):
        if self.parts is not None and any(type(p) is str and p for p in self.parts):
            return True
        return E.branch(self.e != z3.StringVal(''))

    def __eq__(self, o):
        return sx_eq(self, o)

    def __ne__(self, o):
        return f_not(sx_eq(self, o))

    def __hash__(self):
        if self._h is None:
            c = conv_str(simp(self.e))
            if c is not None:
                self._h = hash(c)
            else:
                self._h = HCONST
                for u in sorted(x for x in E.universe if type(x) is str):
                    if E.branch(self.e == z3.StringVal(u)):
                        self._h = hash(u)
                        break
        return self._h

    def _sx_conc(self):
        c = conv_str(simp(self.e))
        if c is not None:
            return c
        if E.universe and ('picked', self.e.get_id()) not in E.memo:
            # spellings close to the names in play first, then any others
            near = []
            for u in sorted(x for x in E.universe if type(x) is str):
                near += [x for x in (u, ' ' + u, u + ' ', u.upper(), u.title(), u + '\n', u + 's', '_' + u) if x not in near]
            E.memo['picked', self.e.get_id()] = (None, self.e)
            for x in near[:40]:
                if E.branch(self.e == z3.StringVal(x)):
                    E.memo['picked', self.e.get_id()] = (x, self.e)
                    return x
        elif E.memo.get(('picked', self.e.get_id()), (None,))[0] is not None:
            return E.memo['picked', self.e.get_id()][0]
        return E.pick(self.e, conv_str, limit=6, what='str')

    def _sx_len(self):
        return SymInt(z3.Length(self.e))

    def __len__(self):
        return E.pick(z3.Length(self.e), conv_int, what='len')

    def _rel(self, o, f):
        if type(o) is SymVal:
            o = o._sx_get()
        b = str_e(o)
        return NotImplemented if b is None else mkbool(simp(f(self.e, b)))

    def __lt__(self, o): return self._rel(o, lambda a, b: a < b)
    def __le__(self, o): return self._rel(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._rel(o, lambda a, b: b < a)
    def __ge__(self, o): return self._rel(o, lambda a, b: b <= a)

    def __add__(self, o):
        if type(o) is SymVal:
            o = o._sx_get()
        if not isinstance_(o, (str, SymStr)):
            return NotImplemented
        return join_parts(self._sx_parts() + parts_of(o))

    def __radd__(self, o):
        if type(o) is SymVal:
            o = o._sx_get()
        if not isinstance_(o, (str, SymStr)):
            return NotImplemented
        return join_parts(parts_of(o) + self._sx_parts())

    def __contains__(self, o):
        b = str_e(o)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand, not " + type_name(o))
        return E.branch(z3.Contains(self.e, b))

    def _sx_contains(self, o):
        b = str_e(o)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand, not " + type_name(o))
        return mkbool(simp(z3.Contains(self.e, b)))

    def startswith(self, p, *a):
        if a:
            return self._sx_conc().startswith(p, *a)
        ps = p if type(p) is tuple else (p,)
        return f_or(*[mkbool(simp(z3.PrefixOf(str_e(x), self.e))) for x in ps])

    def endswith(self, p, *a):
        if a:
            return self._sx_conc().endswith(p, *a)
        ps = p if type(p) is tuple else (p,)
        return f_or(*[mkbool(simp(z3.SuffixOf(str_e(x), self.e))) for x in ps])

    def __iter__(self):
        n = self.__len__()
        e = self.e
        return iter([SymStr(z3.SubString(e, i, 1)) for i in range(n)])

    def __getitem__(self, i):
        if isinstance_(i, (int, SymInt)) and not isinstance_(i, slice):
            n = self.__len__()
            k = i.__index__()
            if k < -n or k >= n:
                raise IndexError('string index out of range')
            return SymStr(z3.SubString(self.e, k % n, 1))
        return self._sx_conc()[i]

    def __mul__(self, n):
        return join_parts(self._sx_parts() * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, o):
        return self._sx_conc() % o

    def __repr__(self):
        return mark(sx_repr(self))

    def __str__(self):
        return mark(self)

    def __format__(self, spec):
        if not spec:
            return self.__str__()
        return format(self._sx_conc(), spec)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_sx'):
            raise AttributeError(name)
        if not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        c = self._sx_conc()
        return getattr(c, name)


class Atom:
    """A lazily rendered piece of text."""
    __slots__ = ('how', 'obj')

    def __init__(self, how, obj):
        self.how = how      # 's' text of a symbolic string, 'i' decimal of int, 'q' decimal of float, 'r' opaque repr
        self.obj = obj

    def late(self):
        o = self.obj
        return self.how == 'r' and type(o) is SymVal and o._sx_r is not None and not isinstance_(o._sx_r[0], (SymStr, SxSet, SxDict, list, tuple))

    def key(self):
        o = self.obj
        if type(o) is SymVal and o._sx_r is not None and type(o._sx_r[0]) is SymStr:
            o = o._sx_r[0]
        t = type(o)
        if t is SymStr:
            return (self.how, simp(o.e).get_id()) if o._e is not None else (self.how, id(o))
        if t is SymInt:
            return (self.how, simp(o.e).get_id())
        if t is SymFloat:
            return (self.how, simp(o.q).get_id())
        return (self.how, id(o))

    def z(self):
        o = self.obj
        if type(o) is SymVal and o._sx_r is not None and type(o._sx_r[0]) is SymStr:
            o = o._sx_r[0]
        if self.how == 's':
            return o.e
        if self.how == 'i':
            e = o.e
            return z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal('-'), z3.IntToStr(-e)))
        if self.how == 'q':
            q = o.q
            a = z3.If(q >= 0, q, -q)
            r = a % 4
            frac = z3.If(r == 0, z3.StringVal('.0'), z3.If(r == 1, z3.StringVal('.25'), z3.If(r == 2, z3.StringVal('.5'), z3.StringVal('.75'))))
            return z3.Concat(z3.If(q >= 0, z3.StringVal(''), z3.StringVal('-')), z3.IntToStr(a / 4), frac)
        if type(o) is SymStr:
            return _quote_e(o.e)
        if type(o) is SymVal and o._sx_r is None:
            o._sx_get()
            if self.late() or type(o._sx_r[0]) is SymStr:
                return str_e(sx_repr(o)) if self.late() else _quote_e(o._sx_r[0].e)
        k = ('opaque', id(o))
        if k not in E.memo:
            E.memo[k] = (mkconst('opaque!%d' % len(E.memo), 's'), o)
        return E.memo[k][0]


def parts_of(x):
    if isinstance_(x, SymStr):
        return x._sx_parts()
    return (x,) if type(x) is str else (str.__str__(x),)


def join_parts(parts):
    out = []
    for p in parts:
        if type(p) is str:
            if not p:
                continue
            if out and type(out[-1]) is str:
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        if type(out[0]) is str:
            return out[0]
        if out[0].how == 's' and out[0].obj.cls is str:
            return out[0].obj
    return SymStr(parts=tuple(out))


def str_e(x):
    if type(x) is SymVal:
        x = x._sx_get()
    if type(x) is SymStr:
        return x.e
    if isinstance_(x, str):
        return z3.StringVal(str.__str__(x))
    return None


# marker strings: real str objects standing for symbolic text where native code insists on str
M0, M1 = '\ue000', '\ue001'
_mark_re = re.compile(M0 + r'(\d+)' + M1)


def mark(s):
    if type(s) is str:
        return s
    E.marks.append(s)
    return '%s%d%s' % (M0, len(E.marks) - 1, M1)


def plain_message(msg):
    """The message of a violation as a plain string (symbolic parts left out)."""
    if type(msg) is not str:
        try:
            msg = ''.join(p if type(p) is str else '<symbolic>' for p in parts_of(msg))
        except TypeError:
            msg = type(msg).__name__
    return _mark_re.sub('<symbolic>', msg)


def unmark(s):
    """Turn a native result containing markers back into symbolic text."""
    if type(s) is not str or M0 not in s:
        return s
    parts = []
    pos = 0
    for m in _mark_re.finditer(s):
        parts.append(s[pos:m.start()])
        parts.extend(parts_of(E.marks[int(m.group(1))]))
        pos = m.end()
    parts.append(s[pos:])
    return join_parts(tuple(parts))


def type_name(o):
    return sx_type(o).__name__


# ---------------------------------------------------------------------------------------------------------------------
# lazily typed values

class SymVal(Sym):
    """A value whose kind (type) is symbolic; it is decided only when the code under test needs it."""
    __slots__ = ('_sx_name', '_sx_spec', '_sx_r', '_sx_t')

    def __init__(self, name, spec):
        s = object.__setattr__
        s(self, '_sx_name', name)
        s(self, '_sx_spec', spec)
        s(self, '_sx_r', None)
        s(self, '_sx_t', False)

    def _sx_touch(self):
        if not self._sx_t:
            object.__setattr__(self, '_sx_t', True)
            E.const(self._sx_name + '#k', 'i')
            E.assume(tag_eq(self._sx_name, self._sx_spec.kinds))

    def _sx_kind(self, *kinds):
        """z3 formula: the value has one of the kinds."""
        self._sx_touch()
        return tag_eq(self._sx_name, kinds)

    def _sx_is(self, kinds):
        ks = tuple(k for k in self._sx_spec.kinds if k in kinds)
        if not ks:
            return False
        if len(ks) == len(self._sx_spec.kinds):
            return True
        return SymBool(self._sx_kind(*ks))

    def _sx_payload(self, kind):
        n = self._sx_name
        sp = self._sx_spec
        if kind == 'none':
            return None
        if kind == 'bool':
            return SymBool(E.const(n + '#b', 'b'))
        if kind in K.INTISH:
            return SymInt(E.const(n + '#i', 'i'), K.KINDS[kind][0])
        if kind in K.FLOATISH:
            return SymFloat(E.const(n + '#q', 'i'), K.KINDS[kind][0])
        if kind in K.STRISH:
            return SymStr(E.const(n + '#s', 's'), K.KINDS[kind][0])
        raise KeyError(kind)

    def _sx_bounds(self, kind, r):
        sp = self._sx_spec
        if kind in K.INTISH and sp.ints:
            E.assume(z3.And(r.e >= sp.ints[0], r.e <= sp.ints[1]))
        elif kind in K.FLOATISH:
            lo, hi = sp.floats or (-4 * 2 ** 40, 4 * 2 ** 40)
            E.assume(z3.And(r.q >= lo, r.q <= hi))
        elif kind in K.STRISH and sp.strings is not None:
            E.assume(z3.Or(*[r.e == z3.StringVal(x) for x in sp.strings]))

    def _sx_get(self):
        """Decide the kind (one path per feasible kind) and return the typed object."""
        r = self._sx_r
        if r is not None:
            return r[0]
        sp = self._sx_spec
        self._sx_touch()
        kind = sp.kinds[-1]
        for k in sp.kinds[:-1]:
            if E.branch(self._sx_kind(k)):
                kind = k
                break
        n = self._sx_name
        if kind in ('none', 'bool') or kind in K.INTISH or kind in K.FLOATISH or kind in K.STRISH:
            r = self._sx_payload(kind)
            self._sx_bounds(kind, r)
        elif kind == 'bytes':
            r = b'ab'
        elif kind == 'obj':
            r = K.Obj(n)
        elif kind == 'unconv':
            r = K.Unconvertible(n)
        elif kind == 'fspecial':
            i = E.const(n + '#f', 'i')
            E.assume(z3.And(i >= 0, i < len(K.FSPECIAL)))
            r = K.FSPECIAL[E.pick(i, conv_int)]
        else:
            ln = E.const(n + '#n', 'i')
            E.assume(z3.And(ln >= sp.minlen, ln <= sp.maxlen))
            ln = E.pick(ln, conv_int)
            cls = K.KINDS[kind][0]
            if kind in K.SEQISH:
                r = cls([SymVal('%s.%d' % (n, i), sp.elem) for i in range(ln)])
            elif kind in K.SETISH:
                es = sp.set_elem()
                r = SxSet([SymVal('%s.%d' % (n, i), es) for i in range(ln)], cls)
                assume_distinct(r._items)
            else:
                ks = [SymVal('%s.k%d' % (n, i), sp.key) for i in range(ln)]
                assume_distinct(ks)
                r = SxDict([(k, SymVal('%s.%d' % (n, i), sp.elem)) for i, k in enumerate(ks)], cls)
        object.__setattr__(self, '_sx_r', (r, kind))
        return r

    __class__ = property(lambda self: sx_type(self))

    def __bool__(self):
        return bool(self._sx_get())

    def __eq__(self, o):
        return sx_eq(self, o)

    def __ne__(self, o):
        return f_not(sx_eq(self, o))

    def __hash__(self):
        return hash(self._sx_get())

    def __repr__(self):
        return mark(sx_repr(self))

    def __str__(self):
        return mark(sx_str(self))

    def __format__(self, spec):
        return format(self._sx_get(), spec)

    def __copy__(self):
        import copy
        r = self._sx_get()
        return self if not isinstance_(r, (list, tuple, SxSet, SxDict)) else copy.copy(r)

    def __deepcopy__(self, memo):
        import copy
        r = self._sx_get()
        return self if not isinstance_(r, (list, tuple, SxSet, SxDict)) else copy.deepcopy(r, memo)

    def __getattr__(self, name):
        if name.startswith('_sx'):
            raise AttributeError(name)
        return getattr(self._sx_get(), name)

    def __setattr__(self, name, v):
        setattr(self._sx_get(), name, v)

    def __len__(self): return len(self._sx_get())
    def __iter__(self): return iter(self._sx_get())
    def __getitem__(self, k): return self._sx_get()[k]
    def __setitem__(self, k, v): self._sx_get()[k] = v
    def __delitem__(self, k): del self._sx_get()[k]
    def __contains__(self, k): return k in self._sx_get()
    def __index__(self):
        r = self._sx_get()
        if isinstance_(r, (int, SymInt, SymBool)):
            return r.__index__()
        raise TypeError("'%s' object cannot be interpreted as an integer" % type_name(r))
    def __int__(self): return int(self._sx_get())
    def __float__(self): return float(self._sx_get())
    def __lt__(self, o): return self._sx_get() < o
    def __le__(self, o): return self._sx_get() <= o
    def __gt__(self, o): return self._sx_get() > o
    def __ge__(self, o): return self._sx_get() >= o
    def __add__(self, o): return self._sx_get() + o
    def __radd__(self, o): return o + self._sx_get()
    def __sub__(self, o): return self._sx_get() - o
    def __rsub__(self, o): return o - self._sx_get()
    def __mul__(self, o): return self._sx_get() * o
    def __rmul__(self, o): return o * self._sx_get()
    def __mod__(self, o): return self._sx_get() % o
    def __floordiv__(self, o): return self._sx_get() // o
    def __neg__(self): return -self._sx_get()
    def __and__(self, o): return self._sx_get() & o
    def __or__(self, o): return self._sx_get() | o
    def __call__(self, *a, **k): return self._sx_get()(*a, **k)


def assume_distinct(items):
    for i in range(len(items)):
        for j in range(i):
            c = sx_eq(items[i], items[j])
            if c is True:
                raise PathAbort()
            if c is not False:
                E.assume(z3.Not(zb(c)))


class SxSet(Sym):
    """A set of symbolic elements (no hashing)."""
    __slots__ = ('_items', 'cls')

    def __init__(self, items, cls=set):
        self._items = list(items)
        self.cls = cls

    __class__ = property(lambda self: self.cls)

    def __iter__(self): return iter(list(self._items))
    def __len__(self): return len(self._items)
    def __bool__(self): return bool(self._items)

    def _sx_contains(self, x):
        return f_or(*[sx_eq(i, x) for i in self._items])

    def __contains__(self, x): return bool(self._sx_contains(x))
    def __eq__(self, o): return sx_eq(self, o)
    def __ne__(self, o): return f_not(sx_eq(self, o))

    def __hash__(self):
        if self.cls is frozenset:
            return HCONST
        raise TypeError("unhashable type: 'set'")

    def add(self, x):
        if x not in self:
            self._items.append(x)

    def discard(self, x):
        self._items = [i for i in self._items if not sx_eq(i, x)]

    def remove(self, x):
        n = len(self._items)
        self.discard(x)
        if len(self._items) == n:
            raise KeyError(x)

    def pop(self):
        if not self._items:
            raise KeyError('pop from an empty set')
        return self._items.pop(0)

    def clear(self): self._items = []
    def copy(self): return SxSet(self._items, self.cls)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SxSet([copy.deepcopy(i, memo) for i in self._items], self.cls)

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def union(self, *os):
        r = self.copy()
        r.update(*os)
        return r

    def difference(self, *os):
        return SxSet([i for i in self._items if not any(i in o for o in os)], self.cls)

    def intersection(self, *os):
        return SxSet([i for i in self._items if all(i in o for o in os)], self.cls)

    def issubset(self, o): return all(i in o for i in self._items)
    def issuperset(self, o): return all(i in self for i in o)
    def isdisjoint(self, o): return not any(i in self for i in o)

    def symmetric_difference(self, o):
        r = self.difference(o)
        r.update(i for i in o if i not in self)
        return r

    def difference_update(self, *os): self._items = self.difference(*os)._items
    def intersection_update(self, *os): self._items = self.intersection(*os)._items
    def symmetric_difference_update(self, o): self._items = self.symmetric_difference(o)._items
    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return as_sxset(o).difference(self)
    def __and__(self, o): return self.intersection(o)
    def __or__(self, o): return self.union(o)
    def __xor__(self, o): return self.symmetric_difference(o)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)
    def __repr__(self): return mark(sx_repr(self))
    __str__ = __repr__


class SxDict(Sym):
    """A dict / mapping with symbolic keys (association list, no hashing)."""
    __slots__ = ('_items', 'cls')

    def __init__(self, items, cls=dict):
        self._items = list(items)
        self.cls = cls

    __class__ = property(lambda self: self.cls)

    def _find(self, k):
        for i, (a, _) in enumerate(self._items):
            if a is k:
                return i
        for i, (a, _) in enumerate(self._items):
            if sx_eq(a, k):
                return i
        return -1

    def __iter__(self): return iter([k for k, _ in self._items])
    def __len__(self): return len(self._items)
    def __bool__(self): return bool(self._items)
    def keys(self): return SxView(k for k, _ in self._items)
    def values(self): return SxView(v for _, v in self._items)
    def items(self): return SxView((k, v) for k, v in self._items)

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        return self._items[i][1]

    def get(self, k, d=None):
        i = self._find(k)
        return d if i < 0 else self._items[i][1]

    def _sx_contains(self, k):
        return f_or(*[sx_eq(a, k) for a, _ in self._items])

    def __contains__(self, k): return bool(self._sx_contains(k))

    def __setitem__(self, k, v):
        if self.cls is K.UserMapping:
            raise TypeError("'UserMapping' object does not support item assignment")
        i = self._find(k)
        if i < 0:
            self._items.append((k, v))
        else:
            self._items[i] = (self._items[i][0], v)

    def __delitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        del self._items[i]

    def pop(self, k, *d):
        i = self._find(k)
        if i < 0:
            if d:
                return d[0]
            raise KeyError(k)
        return self._items.pop(i)[1]

    def popitem(self):
        if not self._items:
            raise KeyError('popitem(): dictionary is empty')
        return self._items.pop()

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i < 0:
            self._items.append((k, d))
            return d
        return self._items[i][1]

    def update(self, o=(), **kw):
        for k in (o.keys() if hasattr(o, 'keys') else [x for x, _ in o]):
            self[k] = o[k]
        for k, v in kw.items():
            self[k] = v

    def clear(self): self._items = []
    def copy(self): return SxDict(self._items, self.cls)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SxDict([(copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in self._items], self.cls)

    def __eq__(self, o): return sx_eq(self, o)
    def __ne__(self, o): return f_not(sx_eq(self, o))
    __hash__ = None
    def __reversed__(self): return iter([k for k, _ in self._items][::-1])
    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SxDict(o.items())
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self): return mark(sx_repr(self))
    __str__ = __repr__


class SxView(list):
    """keys()/values()/items() of an SxDict."""
    def __contains__(self, x):
        return any(sx_eq(x, i) for i in self)

    def _set(self):
        return SxSet(self)

    def __sub__(self, o): return self._set() - o
    def __rsub__(self, o): return as_sxset(o) - self
    def __and__(self, o): return self._set() & o
    def __or__(self, o): return self._set() | o
    def __xor__(self, o): return self._set() ^ o
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __le__(self, o): return self._set() <= o
    def __lt__(self, o): return self._set() < o
    def __ge__(self, o): return self._set() >= o
    def __gt__(self, o): return self._set() > o
    def __eq__(self, o): return list.__eq__(self, o) if type(o) is SxView else len(self) == len(o) and self._set().issubset(o)
    def __ne__(self, o): return not self == o
    __hash__ = None
    def isdisjoint(self, o): return self._set().isdisjoint(o)


def as_sxset(o):
    r = SxSet(())
    r.update(o)
    return r


def _fallbacks():
    """Rarely used special methods: on the numeric value where that stays symbolic, else on a concrete value (forked over)."""
    import operator
    import math
    binary = 'and or xor lshift rshift pow truediv floordiv mod divmod'.split()
    op = {'and': operator.and_, 'or': operator.or_, 'divmod': divmod}

    def conc(x):
        if isinstance_(x, Sym):
            x = unwrap(x)
        t = type(x)
        if t is SymInt:
            return x.__index__()
        if t is SymBool:
            return bool(x)
        if t is SymFloat:
            return x._conc()
        if t is SymStr:
            return x._sx_conc()
        return x

    def add(cls, name, f):
        if not any(name in vars(k) for k in cls.__mro__[:-1]):
            setattr(cls, name, f)
    for cls in (SymInt, SymFloat, SymBool, SymVal):
        for b in binary:
            g = op.get(b) or getattr(operator, b)
            add(cls, '__%s__' % b, lambda self, o, *m, g=g: g(conc(self), conc(o), *m) if not m else pow(conc(self), conc(o), *m))
            add(cls, '__r%s__' % b, lambda self, o, g=g: g(conc(o), conc(self)))
        add(cls, '__invert__', lambda self: ~conc(self))
        add(cls, '__pos__', lambda self: +conc(self))
        add(cls, '__abs__', lambda self: abs(unwrap(self) if type(self) is SymVal else conc(self)))
        add(cls, '__round__', lambda self, *n: round(conc(self), *n))
        add(cls, '__trunc__', lambda self: math.trunc(conc(self)))
        add(cls, '__floor__', lambda self: math.floor(conc(self)))
        add(cls, '__ceil__', lambda self: math.ceil(conc(self)))


# ---------------------------------------------------------------------------------------------------------------------
# operations on possibly symbolic values

def sx_type(x):
    t = type(x)
    if not issubclass(t, Sym):
        return t
    if t is SymVal:
        return sx_type(x._sx_get())
    if t is SymBool:
        return bool
    return x.cls


def unwrap(x):
    return x._sx_get() if type(x) is SymVal else x


_SCALAR_T = (SymBool, SymInt, SymFloat, SymStr)


def _scalar_eq(a, b):
    """a, b typed scalars (proxy or concrete); returns bool / SymBool."""
    na, nb = num_of(a), num_of(b)
    if na is not None and nb is not None:
        return num_rel('==', na, nb)
    if na is not None or nb is not None:
        return False
    sa, sb = isinstance_(a, (str, SymStr)), isinstance_(b, (str, SymStr))
    if sa and sb:
        if type(a) is SymStr or type(b) is SymStr:
            pa, pb = parts_of(a), parts_of(b)
            if len(pa) == len(pb) and all((x == y) if type(x) is str and type(y) is str else
                                          (type(x) is Atom and type(y) is Atom and x.key() == y.key()) for x, y in zip(pa, pb)):
                return True
            # quick reject on a differing literal prefix
            if type(pa[0]) is str and type(pb[0]) is str:
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return False
            if type(pa[-1]) is str and type(pb[-1]) is str:
                n = min(len(pa[-1]), len(pb[-1]))
                if n and pa[-1][-n:] != pb[-1][-n:]:
                    return False
            # strip equal leading / trailing parts
            return mkbool(simp(str_e(a) == str_e(b)))
        return str.__eq__(a, b)
    if sa or sb:
        return False
    return a == b


def kinds_of(x):
    """Possible (kind-class, typed object) pairs of a value without deciding its kind; None if not a scalar."""
    if type(x) is SymVal and x._sx_r is None:
        out = []
        for k in x._sx_spec.kinds:
            c = x._sx_kind(k)
            if k in ('none', 'bool') or k in K.INTISH or k in K.FLOATISH or k in K.STRISH:
                out.append((c, x._sx_payload(k)))
            else:
                return None
        return out
    return [(_TRUE, unwrap(x))]


def sx_eq(a, b):
    """Equality as bool or SymBool."""
    if a is b:
        return True if not isinstance_(a, float) or a == a else False
    ta, tb = type(a), type(b)
    if ta is SymVal and a._sx_r is not None:
        a = a._sx_r[0]
        ta = type(a)
    if tb is SymVal and b._sx_r is not None:
        b = b._sx_r[0]
        tb = type(b)
    if a is b:
        return True if not isinstance_(a, float) or a == a else False
    if ta is SymVal or tb is SymVal:
        if ta is SymVal and tb is SymVal:
            ka, kb = kinds_of(a), kinds_of(b)
            if ka is not None and kb is not None:
                return f_or(*[f_and(SymBool(z3.And(ca, cb)), sx_eq(x, y)) for ca, x in ka for cb, y in kb])
            return sx_eq(a._sx_get(), b._sx_get())
        v, o = (a, b) if ta is SymVal else (b, a)
        # value against a typed object: only the kinds that can be equal to it matter
        terms = []
        rest = False
        for k in v._sx_spec.kinds:
            c = v._sx_kind(k)
            if k in ('none', 'bool') or k in K.INTISH or k in K.FLOATISH or k in K.STRISH:
                eq = sx_eq(v._sx_payload(k), o)
                if eq is not False:
                    terms.append(f_and(mkbool(c), eq))
            elif isinstance_(o, (type(None), bool, int, float, str) + _SCALAR_T):
                if k == 'fspecial':
                    rest = True
            else:
                rest = True
        if rest:
            return sx_eq(v._sx_get(), o)
        return f_or(*terms)
    if a is None or b is None:
        return False
    sa = isinstance_(a, (bool, int, float, str) + _SCALAR_T)
    sb = isinstance_(b, (bool, int, float, str) + _SCALAR_T)
    if sa and sb:
        return _scalar_eq(a, b)
    la, lb = isinstance_(a, list), isinstance_(b, list)
    if (la and lb) or (isinstance_(a, tuple) and isinstance_(b, tuple)):
        if len(a) != len(b):
            return False
        return f_and(*[sx_eq(x, y) for x, y in zip(a, b)])
    if ta is SxSet or tb is SxSet:
        if not (isinstance_(a, (set, frozenset, SxSet)) and isinstance_(b, (set, frozenset, SxSet))):
            return False
        if len(a) != len(b):
            return False
        return f_and(*[f_or(*[sx_eq(x, y) for y in b]) for x in a])
    da, db = isinstance_(a, (dict, SxDict)), isinstance_(b, (dict, SxDict))
    if da and db:
        if ta is SxDict and a.cls is K.UserMapping and not (tb is SxDict and b.cls is K.UserMapping):
            pass
        if len(a) != len(b):
            return False
        if ta is SxDict or tb is SxDict:
            if ta is not SxDict:
                a, b = b, a
            bl = list(b.items())
            return f_and(*[f_or(*[f_and(sx_eq(k, k2), sx_eq(v, v2)) for k2, v2 in bl]) for k, v in a._items])
        out = []
        for k, v in a.items():
            if k not in b:
                return False
            out.append(sx_eq(v, b[k]))
        return f_and(*out)
    if isinstance_(a, Sym) and isinstance_(b, Sym):
        return False
    if isinstance_(a, Sym) or isinstance_(b, Sym):
        s, o = (a, b) if isinstance_(a, Sym) else (b, a)
        m = type(o).__eq__
        if m is object.__eq__ or isinstance_(o, (list, tuple, dict, set, frozenset, bytes, type(None), type)):
            return False
        r = m(o, s)
        return False if r is NotImplemented else r
    return a == b


def sx_same(a, b):
    """Same object, or indistinguishable scalars (same type, equal): bool or SymBool."""
    a, b = unwrap1(a), unwrap1(b)
    if a is b:
        return True
    if type(a) is SymVal and type(b) is SymVal:
        ka, kb = kinds_of(a), kinds_of(b)
        if ka is None or kb is None:
            return sx_same(a._sx_get(), b._sx_get())
        return f_or(*[f_and(SymBool(z3.And(ca, cb)), sx_same(x, y)) for ca, x in ka for cb, y in kb])
    if type(a) is SymVal or type(b) is SymVal:
        v, o = (a, b) if type(a) is SymVal else (b, a)
        ka = kinds_of(v)
        if ka is None:
            return sx_same(v._sx_get(), o)
        return f_or(*[f_and(SymBool(c), sx_same(x, o)) for c, x in ka])
    if isinstance_(a, (bool, int, float, str) + _SCALAR_T) and isinstance_(b, (bool, int, float, str) + _SCALAR_T):
        return sx_eq(a, b) if sx_type(a) is sx_type(b) else False
    return False


def unwrap1(x):
    return x._sx_r[0] if type(x) is SymVal and x._sx_r is not None else x


def sx_str(x):
    t = type(x)
    if t is SymVal:
        return sx_str(x._sx_get())
    if t is SymStr:
        return x if x.cls is str else SymStr(x._e, parts=x.parts)
    if t is SymInt:
        return SymStr(parts=(Atom('i', x),))
    if t is SymBool:
        return str(bool(x))
    if t is SymFloat:
        if x.big and not E.branch(z3.And(x.q > -4 * 10 ** 16, x.q < 4 * 10 ** 16)):
            raise PathAbort('text of a large float')
        return SymStr(parts=(Atom('q', x),))
    if t in (SxSet, SxDict, list, tuple, dict, set):
        return sx_repr(x)
    if isinstance_(x, BaseException):
        f = t.__str__
        if f is BaseException.__str__ or f is Exception.__str__:
            if len(x.args) == 0:
                return ''
            return sx_str(x.args[0]) if len(x.args) == 1 else sx_repr(x.args)
        if f is KeyError.__str__ and len(x.args) == 1:
            return sx_repr(x.args[0])
    f = getattr(t, '__str__', None)
    if f is not None and hasattr(f, '__code__'):
        return f(x)
    if f is object.__str__:
        return sx_repr(x)
    return unmark(str(x))


def sx_repr(x, depth=0):
    t = type(x)
    if t is SymVal:
        if x._sx_r is not None and not isinstance_(x._sx_r[0], (SymStr, SxSet, SxDict, list, tuple)):
            return sx_repr(x._sx_r[0])
        return SymStr(parts=(Atom('r', x),))
    if t is SymStr:
        return SymStr(parts=(Atom('r', x),))
    if t is SymInt:
        return SymStr(parts=(Atom('i', x),))
    if t is SymBool:
        return repr(bool(x))
    if t is SymFloat:
        if x.big and not E.branch(z3.And(x.q > -4 * 10 ** 16, x.q < 4 * 10 ** 16)):
            raise PathAbort('text of a large float')
        return SymStr(parts=(Atom('q', x),))
    if t is list:
        return _seq_repr('[', x, ']')
    if t is tuple:
        return _seq_repr('(', x, ',)' if len(x) == 1 else ')')
    if t is SxSet or t is set:
        return _seq_repr('{', list(x), '}') if len(x) else 'set()'
    if t is SxDict or t is dict:
        parts = ('{',)
        for i, (k, v) in enumerate(x.items()):
            parts += ((', ',) if i else ()) + parts_of(sx_repr(k)) + (': ',) + parts_of(sx_repr(v))
        return join_parts(parts + ('}',))
    f = t.__repr__
    if hasattr(f, '__code__'):
        return f(x)
    return unmark(repr(x))


def _seq_repr(o, xs, c):
    parts = (o,)
    for i, v in enumerate(xs):
        parts += ((', ',) if i else ()) + parts_of(sx_repr(v))
    return join_parts(parts + (c,))


_RE_INT = z3.Concat(z3.Option(z3.Re('-')), z3.Plus(z3.Range('0', '9')))
_RE_NOTINT = z3.Star(z3.Union(z3.Range('!', '*'), z3.Range(',', '^'), z3.Range('`', '~')))
_RE_FLOAT = z3.Concat(_RE_INT, z3.Option(z3.Union(z3.Re('.0'), z3.Re('.25'), z3.Re('.5'), z3.Re('.75'))))
_RE_NOTFLOAT = z3.Star(z3.Union(z3.Range('a', 'h'), z3.Range('j', 'm'), z3.Range('o', 'z'), z3.Re(' '), z3.Re('-')))


def _parse_int_e(s):
    neg = z3.PrefixOf(z3.StringVal('-'), s)
    return z3.If(neg, -z3.StrToInt(z3.SubString(s, 1, z3.Length(s) - 1)), z3.StrToInt(s))


def sx_int(x, *a):
    x = unwrap(x)
    t = type(x)
    if a or not issubclass(t, Sym):
        return int(x, *a)
    if t is SymInt:
        return SymInt(x.e)
    if t is SymBool:
        return x._num()
    if t is SymFloat:
        q = x.q
        return SymInt(z3.If(q >= 0, q / 4, -((-q) / 4)))
    if t is SymStr:
        s = x.e
        E.assume(z3.And(z3.Length(s) <= 8, z3.Or(z3.InRe(s, _RE_INT), z3.InRe(s, _RE_NOTINT))))
        if E.branch(z3.InRe(s, _RE_INT)):
            return SymInt(_parse_int_e(s))
        raise ValueError(join_parts(('invalid literal for int() with base 10: ',) + parts_of(sx_repr(x))))
    raise TypeError("int() argument must be a string, a bytes-like object or a real number, not '%s'" % type_name(x))


def sx_float(x):
    x = unwrap(x)
    t = type(x)
    if not issubclass(t, Sym):
        return float(x)
    if t is SymFloat:
        return SymFloat(x.q, big=x.big)
    if t is SymBool:
        x = x._num()
        t = SymInt
    if t is SymInt:
        if E.branch(z3.And(x.e >= -2 ** 53, x.e <= 2 ** 53)):
            return SymFloat(x.e * 4)
        a = z3.If(x.e >= 0, x.e, -x.e)
        if E.branch(a >= 2 ** 1024 - 2 ** 970):
            raise OverflowError('int too large to convert to float')
        if not E.branch(a < 2 ** 60):
            raise PathAbort('integer too large for the float model')
        # round half to even to the spacing of the floats of that size
        v = None
        for k in range(7, 0, -1):
            u = 2 ** k
            q, r = a / u, a % u
            up = z3.Or(r > u // 2, z3.And(r == u // 2, q % 2 == 1))
            e = z3.If(up, q + 1, q) * u
            v = e if v is None else z3.If(a <= 2 ** (53 + k), e, v)
        return SymFloat(z3.If(x.e >= 0, v, -v) * 4, big=True)
    if t is SymStr:
        s = x.e
        E.assume(z3.And(z3.Length(s) <= 8, z3.Or(z3.InRe(s, _RE_FLOAT), z3.InRe(s, _RE_NOTFLOAT))))
        if E.branch(z3.InRe(s, _RE_FLOAT)):
            dot = z3.IndexOf(s, z3.StringVal('.'), 0)
            ip = z3.If(dot >= 0, z3.SubString(s, 0, dot), s)
            neg = z3.PrefixOf(z3.StringVal('-'), s)
            a = z3.If(neg, z3.StrToInt(z3.SubString(ip, 1, z3.Length(ip) - 1)), z3.StrToInt(ip))
            fr = z3.If(z3.SuffixOf(z3.StringVal('.25'), s), z3.IntVal(1),
                       z3.If(z3.SuffixOf(z3.StringVal('.5'), s), z3.IntVal(2),
                             z3.If(z3.SuffixOf(z3.StringVal('.75'), s), z3.IntVal(3), z3.IntVal(0))))
            v = a * 4 + fr
            return SymFloat(z3.If(neg, -v, v))
        raise ValueError(join_parts(('could not convert string to float: ',) + parts_of(sx_repr(x))))
    raise TypeError("float() argument must be a string or a real number, not '%s'" % type_name(x))


# ---------------------------------------------------------------------------------------------------------------------
# evaluation under a model

def ev(x, m, depth=0):
    t = type(x)
    if not issubclass(t, Sym):
        if t is list or t is tuple:
            return t(ev(i, m) for i in x)
        if t is K.ListSub or t is K.TupleSub:
            return t(ev(i, m) for i in x)
        if t is dict:
            return {ev(k, m): ev(v, m) for k, v in x.items()}
        if t is set:
            return {ev(i, m) for i in x}
        return x
    if t is SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if t is SymInt:
        return x.cls(m.eval(x.e, model_completion=True).as_long())
    if t is SymFloat:
        return x.cls(m.eval(x.q, model_completion=True).as_long() / 4)
    if t is SymStr:
        if x.parts is None:
            return x.cls(zstr(m.eval(x._e, model_completion=True)))
        out = []
        for p in x.parts:
            if type(p) is str:
                out.append(p)
            else:
                v = ev(p.obj, m)
                out.append(repr(v) if p.how == 'r' else str(v))
        return x.cls(''.join(out))
    if t is SxSet:
        return x.cls(ev(i, m) for i in x._items)
    if t is SxDict:
        return x.cls([(ev(k, m), ev(v, m)) for k, v in x._items])
    if t is SymVal:
        if x._sx_r is not None:
            return ev(x._sx_r[0], m)
        from .plain import build

        def look(name):
            c = E.vars.get(name)
            if c is None:
                return None
            return zval(m.eval(c, model_completion=True))
        return build(x._sx_name, x._sx_spec, look)
    raise TypeError(t)


_fallbacks()
