"""Deterministic threads: real threads of which exactly one runs at a time, switching only where the schedule says.

The schedule is a list of (n-th point of the running thread since it got control, next thread). Points are the calls of
`point()` that the loaders insert before every statement of the code under test (see instr.add_points), and those a harness
makes itself in its callbacks. Used with the same meaning in the symbolic run and in the replay on plain code.
"""
import ast
import contextvars
import importlib.abc
import importlib.machinery
import os
import sys
import threading

CUR = None          # the active Sched


class Killed(BaseException):
    """Unwinds a thread whose run is abandoned."""


def point():
    """Called before every statement."""
    s = CUR
    if s is not None:
        s.point()


def explicit():
    """Called by callbacks of a harness."""
    s = CUR
    if s is not None:
        s.point(True)


class Sched:
    def __init__(self, only_explicit=False):
        self.only_explicit = only_explicit
        self.threads = []
        self.sems = []
        self.done = []
        self.plan = []
        self.count = 0
        self.killing = False
        self.error = None
        self.switches = 0
        self.main = threading.Semaphore(0)

    def point(self, explicit=False):
        if self.only_explicit and not explicit:
            return
        t = getattr(threading.current_thread(), 'sx_index', None)
        if t is None or self.killing:
            return
        self.count += 1
        if self.plan and self.plan[0][0] == self.count:
            to = self.plan[0][1]
            self.plan.pop(0)
            self.count = 0
            if to != t and not self.done[to]:
                self.switches += 1
                self.sems[to].release()
                self.sems[t].acquire()
                if self.killing:
                    raise Killed()

    def _body(self, i, f):
        self.sems[i].acquire()
        try:
            if not self.killing:
                self.results[i] = contextvars.Context().run(f)
        except Killed:
            pass
        except BaseException as e:
            if self.error is None:
                self.error = e
        finally:
            self.done[i] = True
            if self.error is not None or all(self.done):
                self.main.release()
            else:
                # the thread ended: the next one in order continues
                self.count = 0
                self.sems[self.done.index(False)].release()

    def run(self, funcs, plan):
        """Runs the functions under the schedule, starting with the first; returns their results."""
        global CUR
        self.plan = list(plan)
        n = len(funcs)
        self.results = [None] * n
        self.done = [False] * n
        self.sems = [threading.Semaphore(0) for _ in funcs]
        old = threading.stack_size(64 << 20)
        try:
            for i, f in enumerate(funcs):
                th = threading.Thread(target=self._body, args=(i, f), daemon=True)
                th.sx_index = i
                self.threads.append(th)
                th.start()
        finally:
            threading.stack_size(old)
        CUR = self
        try:
            self.sems[0].release()
            self.main.acquire()
        finally:
            CUR = None
            self.killing = True
            for i in range(n):
                if not self.done[i]:
                    self.sems[i].release()
                    self.threads[i].join()
            for t in self.threads:
                t.join()
        if self.error is not None:
            raise self.error
        return self.results


class Counter:
    """Counts the points of a function run alone."""

    def __init__(self, only_explicit=False):
        self.only_explicit = only_explicit
        self.n = 0

    def point(self, explicit=False):
        if explicit or not self.only_explicit:
            self.n += 1

    def run(self, f):
        global CUR
        CUR = self
        try:
            r = contextvars.Context().run(f)
        finally:
            CUR = None
        return r, self.n


# -- points in the code under test -----------------------------------------------------------------------------------------

class Pointer(ast.NodeTransformer):
    """Inserts a call of sched.point before every statement of function bodies."""

    def __init__(self):
        self.depth = 0

    def _block(self, stmts, doc=False):
        out = []
        for i, s in enumerate(stmts):
            s = self.visit(s)
            if self.depth and not (doc and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append(ast.copy_location(ast.parse('_sx_point_()').body[0], s))
            out.append(s)
        return out

    def generic_visit(self, node):
        for name in ('body', 'orelse', 'finalbody'):
            b = getattr(node, name, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, name, self._block(b))
        for h in getattr(node, 'handlers', ()):
            h.body = self._block(h.body)
        for c in getattr(node, 'cases', ()):
            c.body = self._block(c.body)
        return node

    def _func(self, node):
        self.depth += 1
        node.body = self._block(node.body, True)
        self.depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func


def add_points(tree):
    tree = Pointer().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class PlainLoader(importlib.abc.Loader):
    """The source as it is, with points; for replaying schedules."""

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        module.__dict__['_sx_point_'] = point
        exec(compile(add_points(ast.parse(src, self.path)), self.path, 'exec', dont_inherit=True), module.__dict__)


class PlainFinder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, name, path=None, target=None):
        if name != 'oblate' and not name.startswith('oblate.'):
            return None
        p = os.path.join(self.repo, *name.split('.'))
        for q, pkg in ((p + '/__init__.py', True), (p + '.py', False)):
            if os.path.isfile(q):
                spec = importlib.machinery.ModuleSpec(name, PlainLoader(q), origin=q, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [p]
                spec.has_location = True
                return spec
        return None
