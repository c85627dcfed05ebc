"""Loads the code under test from /repo's current source, instrumented for symbolic execution.

Only expressions inside function bodies are rewritten, and only so that operations CPython performs in C (calls of
builtins, `is`, `in`, f-strings, `%`) go through sx.rt, which handles symbolic operands and otherwise does exactly what
the original expression does.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import rt, sched

REPO = os.environ.get('SX_REPO', '/repo')
_EXEMPT = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__', 'breakpoint'}


_SELF = {'bool', 'bytearray', 'bytes', 'dict', 'float', 'frozenset', 'int', 'list', 'set', 'str', 'tuple'}


class Desugar(ast.NodeTransformer):
    """match statements inside functions as if/elif chains, and comparison chains with `is`/`in`, so that their tests can be rewritten too."""

    def __init__(self):
        self.depth = 0
        self.n = 0

    def _func(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = _func

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth or len(node.ops) < 2 or not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops):
            return node

        def test(o):
            args = ast.arguments(posonlyargs=[], args=[ast.arg('a'), ast.arg('b')], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.Lambda(args=args, body=ast.Compare(left=ast.Name('a', ast.Load()), ops=[o], comparators=[ast.Name('b', ast.Load())]))
        none = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        args = [node.left]
        for o, c in zip(node.ops, node.comparators):
            args += [test(o), ast.Lambda(args=none, body=c)]
        return ast.copy_location(ast.Call(func=ast.Name('_sx_chain_', ast.Load()), args=args, keywords=[]), node)

    def _let(self, expr):
        self.n += 1
        name = '_sx_m%d' % self.n
        return name, ast.NamedExpr(target=ast.Name(name, ast.Store()), value=expr)

    def _call(self, f, *args):
        return ast.Call(func=ast.Name(f, ast.Load()), args=list(args), keywords=[])

    def _bind(self, name, expr):
        return ast.Subscript(value=ast.Tuple(elts=[ast.NamedExpr(target=ast.Name(name, ast.Store()), value=expr), ast.Constant(True)], ctx=ast.Load()),
                             slice=ast.Constant(1), ctx=ast.Load())

    def _sub(self, pattern, expr):
        """Tests binding the value of expr to a temporary and matching it."""
        name, let = self._let(expr)
        keep = ast.Subscript(value=ast.Tuple(elts=[let, ast.Constant(True)], ctx=ast.Load()), slice=ast.Constant(1), ctx=ast.Load())
        return [keep] + self.tests(pattern, name)

    def tests(self, p, name):
        """Expressions all of which have to be true for the value of the variable to match."""
        x = lambda: ast.Name(name, ast.Load())
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(left=x(), ops=[ast.Eq()], comparators=[p.value])]
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(left=x(), ops=[ast.Is()], comparators=[ast.Constant(p.value)])]
        if isinstance(p, ast.MatchAs):
            out = self.tests(p.pattern, name) if p.pattern is not None else []
            return out + ([self._bind(p.name, x())] if p.name else [])
        if isinstance(p, ast.MatchOr):
            alts = [self.tests(q, name) or [ast.Constant(True)] for q in p.patterns]
            return [ast.BoolOp(op=ast.Or(), values=[ast.BoolOp(op=ast.And(), values=a) if len(a) > 1 else a[0] for a in alts])]
        if isinstance(p, ast.MatchSequence):
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            out = [self._call('_sx_sequence_', x()),
                   ast.Compare(left=self._call('len', x()), ops=[ast.GtE() if stars else ast.Eq()], comparators=[ast.Constant(n - len(stars))])]
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        end = ast.Constant(i + 1 - n) if i + 1 < n else None
                        sl = ast.Subscript(value=x(), slice=ast.Slice(lower=ast.Constant(i), upper=end), ctx=ast.Load())
                        out.append(self._bind(q.name, self._call('list', sl)))
                    continue
                at = i - n if stars and i > stars[0] else i
                out += self._sub(q, ast.Subscript(value=x(), slice=ast.Constant(at), ctx=ast.Load()))
            return out
        if isinstance(p, ast.MatchMapping):
            out = [self._call('_sx_mapping_', x())]
            for k, q in zip(p.keys, p.patterns):
                out.append(ast.Compare(left=k, ops=[ast.In()], comparators=[x()]))
                out += self._sub(q, ast.Subscript(value=x(), slice=k, ctx=ast.Load()))
            if p.rest:
                out.append(self._bind(p.rest, self._call('_sx_rest_', x(), *p.keys)))
            return out
        if isinstance(p, ast.MatchClass):
            out = [self._call('isinstance', x(), p.cls)]
            for i, q in enumerate(p.patterns):
                if isinstance(p.cls, ast.Name) and p.cls.id in _SELF:
                    out += self.tests(q, name)
                else:
                    out += self._sub(q, self._call('_sx_matcharg_', x(), p.cls, ast.Constant(i)))
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                out.append(self._call('hasattr', x(), ast.Constant(a)))
                out += self._sub(q, ast.Attribute(value=x(), attr=a, ctx=ast.Load()))
            return out
        raise NotImplementedError(type(p).__name__)

    def visit_Match(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        self.n += 1
        name = '_sx_m%d' % self.n
        out = []
        for case in reversed(node.cases):
            ts = self.tests(case.pattern, name) + ([case.guard] if case.guard is not None else [])
            test = ast.Constant(True) if not ts else ts[0] if len(ts) == 1 else ast.BoolOp(op=ast.And(), values=ts)
            out = [ast.copy_location(ast.If(test=test, body=case.body, orelse=out), case.body[0])]
        first = ast.copy_location(ast.Assign(targets=[ast.Name(name, ast.Store())], value=node.subject), node)
        return [first] + out


class Rewriter(ast.NodeTransformer):
    def __init__(self, record):
        self.depth = 0
        self.record = record
        self.qual = []
        self.funcs = []

    # -- scopes
    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        self.qual.append(node.name)
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        if self.record:
            name = '.'.join(self.qual)
            self.funcs.append(name)
            i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                      and isinstance(node.body[0].value.value, str)) else 0
            probe = ast.parse('_sx_enter_(%r)' % ('%s:%s' % (self.record, name))).body[0]
            node.body.insert(i, ast.copy_location(probe, node))
        self.qual.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # -- expressions
    def _n(self, name, args, node, keywords=()):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=list(keywords)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        f = node.func
        if isinstance(f, ast.Name) and (f.id in _EXEMPT or f.id.startswith('_sx_')):
            return node
        return self._n('_sx_call_', [f] + node.args, node, node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth or len(node.ops) != 1:
            return node
        name = {ast.Is: '_sx_is_', ast.IsNot: '_sx_isnot_', ast.In: '_sx_in_', ast.NotIn: '_sx_notin_'}.get(type(node.ops[0]))
        if name is None:
            return node
        return self._n(name, [node.left, node.comparators[0]], node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Mod):
            return self._n('_sx_mod_', [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value=None)
                args.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return self._n('_sx_fstr_', args, node)


POINTS = False


def compile_source(src, filename, record):
    tree = ast.parse(src, filename)
    if POINTS and record:
        tree = sched.add_points(tree)
    tree = ast.fix_missing_locations(Desugar().visit(tree))
    rw = Rewriter(record)
    tree = rw.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True), rw.funcs


ALL_FUNCS = {}          # module -> list of function names
_code_cache = {}


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.name not in _code_cache:
            with open(self.path, 'rb') as f:
                src = f.read()
            code, funcs = compile_source(src, self.path, self.name)
            _code_cache[self.name] = code
            ALL_FUNCS[self.name] = funcs
        module.__dict__.update(rt.EXPORTS)
        module.__dict__['_sx_point_'] = sched.point
        exec(_code_cache[self.name], module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'oblate' and not name.startswith('oblate.'):
            return None
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(p + '/__init__.py'):
            spec = importlib.machinery.ModuleSpec(name, Loader(name, p + '/__init__.py'), is_package=True)
            spec.origin = p + '/__init__.py'
            spec.submodule_search_locations = [p]
            spec.has_location = True
            return spec
        if os.path.isfile(p + '.py'):
            spec = importlib.machinery.ModuleSpec(name, Loader(name, p + '.py'))
            spec.origin = p + '.py'
            spec.has_location = True
            return spec
        return None


def install():
    sys.meta_path.insert(0, Finder())


def import_all():
    """Import every module of the package."""
    import importlib
    base = os.path.join(REPO, 'oblate')
    names = []
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.')
                names.append(rel[:-9] if rel.endswith('.__init__') else rel)
    for n in sorted(names):
        importlib.import_module(n)


def load_harness(path, name):
    """Harness module under the same instrumentation (its own code also works on symbolic values)."""
    import types
    with open(path, 'rb') as f:
        src = f.read()
    code, _ = compile_source(src, path, None)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__.update(rt.EXPORTS)
    sys.modules[name] = m
    exec(code, m.__dict__)
    return m


# ---------------------------------------------------------------------------------------------------------------------
# module state

_MISSING = object()


def _mods():
    return [m for n, m in sorted(sys.modules.items()) if n == 'oblate' or n.startswith('oblate.')]


def _slots_state(obj):
    out = {}
    for c in type(obj).__mro__:
        sl = c.__dict__.get('__slots__', ())
        for s in ((sl,) if isinstance(sl, str) else sl):
            if s in ('__dict__', '__weakref__'):
                continue
            if s.startswith('__') and not s.endswith('__'):
                s = '_%s%s' % (c.__name__.lstrip('_'), s)
            v = getattr(obj, s, _MISSING)
            if v is not _MISSING:
                out[s] = v
    return out


def snapshot():
    """Remember all module-level and class-level state of the package."""
    snap = []
    seen = set()

    def visit(o, deep):
        if id(o) in seen:
            return
        seen.add(id(o))
        t = type(o)
        if t in (dict, list, set):
            snap.append((o, t(o)))
            for v in (list(o.values()) if t is dict else list(o)):
                if type(v) in (dict, list, set):
                    visit(v, deep)
        elif isinstance(o, type) and getattr(o, '__module__', '').split('.')[0] == 'oblate':
            d = {k: v for k, v in vars(o).items() if k not in ('__dict__', '__weakref__')}
            snap.append((o, d))
            for k, v in d.items():
                if not (k.startswith('__') and k.endswith('__')) or k in ('__fields__', '__load_fields__'):
                    visit(v, deep)
        elif t.__module__.split('.')[0] == 'oblate' and not isinstance(o, type):
            st = _slots_state(o)
            if hasattr(o, '__dict__'):
                st.update(vars(o))
            snap.append((o, st))
            for v in st.values():
                visit(v, deep)
    for m in _mods():
        d = dict(vars(m))
        snap.append((m, d))
        for k, v in d.items():
            if not k.startswith('__'):
                visit(v, True)
    return snap


def restore(snap):
    import types
    for o, saved in snap:
        t = type(o)
        if t is types.ModuleType:
            cur = vars(o)
            for k in [k for k in cur if k not in saved]:
                del cur[k]
            for k, v in saved.items():
                if cur.get(k, _MISSING) is not v:
                    cur[k] = v
        elif t is dict:
            if len(o) != len(saved) or any(o.get(k, _MISSING) is not v for k, v in saved.items()):
                o.clear()
                o.update(saved)
        elif t is list:
            if len(o) != len(saved) or any(a is not b for a, b in zip(o, saved)):
                o[:] = saved
        elif t is set:
            if len(o) != len(saved) or o != saved:
                o.clear()
                o.update(saved)
        elif isinstance(o, type):
            cur = vars(o)
            for k in list(cur):
                if k not in saved and k not in ('__dict__', '__weakref__', '__doc__'):
                    try:
                        type.__delattr__(o, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in saved.items():
                if cur.get(k, _MISSING) is not v:
                    try:
                        type.__setattr__(o, k, v)
                    except (AttributeError, TypeError):
                        pass
        else:
            cur = _slots_state(o)
            if hasattr(o, '__dict__'):
                for k in [k for k in vars(o) if k not in saved]:
                    vars(o).pop(k, None)
                cur.update(vars(o))
            for k, v in saved.items():
                if cur.get(k, _MISSING) is not v:
                    try:
                        object.__setattr__(o, k, v)
                    except (AttributeError, TypeError):
                        pass
    for m in _mods():
        for v in list(vars(m).values()):
            cc = getattr(v, 'cache_clear', None)
            if cc is not None and callable(cc) and getattr(v, '__module__', '').split('.')[0] == 'oblate':
                cc()
