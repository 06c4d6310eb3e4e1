"""Simulated threads for loops which numba divides over threads.

install() replaces numba's decorators before resqpy is imported: functions stay Python, and in those decorated with parallel = True each prange loop becomes a
team of simulated threads. Only one of them ever executes; control passes from one to another between Python bytecodes as a seeded schedule says.

The meaning of a prange loop is numba's: iterations are divided into contiguous chunks, one for each thread; a variable assigned in the body is private to the
thread (starting from its value before the loop), a variable updated by an augmented assignment is a reduction (never racing), and everything else - arrays, lists - is shared.
"""
import ast
import functools
import inspect
import sys
import textwrap
import threading

from . import shim

PARALLEL = {}  # names of functions which have simulated loops, and how many


class Schedule:
    """How a run divides and interleaves loops."""

    def __init__(self, n_threads, sched, marks = ()):
        self.n_threads = n_threads
        self.sched = list(sched)
        self.marks = marks
        self.switches = 0
        self.ticks = 0
        self.loops = 0
        self.trace = []
        self.team = None
        self.atomic = 0


CURRENT = None


def use(schedule):
    global CURRENT
    CURRENT = schedule


class Team:

    def __init__(self, sch, body, its):
        self.sch = sch
        n = max(1, min(sch.n_threads, len(its)))
        size, extra = divmod(len(its), n)
        self.chunks, at = [], 0
        for k in range(n):
            m = size + (1 if k < extra else 0)
            self.chunks.append(its[at:at + m])
            at += m
        self.body = body
        self.done = [False] * n
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.error = None
        self.cur = 0
        self.next_switch()

    def next_switch(self):
        self.gap, self.choice = self.sch.sched.pop(0) if self.sch.sched else (1 << 60, 0)

    def run(self):
        ts = [threading.Thread(target = self.thread, args = (k,), daemon = True) for k in range(len(self.chunks))]
        for t in ts:
            t.start()
        self.sems[0].release()
        self.main.acquire()
        for t in ts:
            t.join()
        if self.error is not None:
            raise self.error

    def thread(self, k):
        self.sems[k].acquire()
        try:
            sys.settrace(self.tracer)
            for i in self.chunks[k]:
                if self.error is not None:
                    break
                self.body(i)
        except BaseException as e:  # noqa
            self.error = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            left = [j for j in range(len(self.done)) if not self.done[j]]
            if left:
                self.cur = left[0]
                self.sems[self.cur].release()
            else:
                self.main.release()

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if 'resqpy' not in fn:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode' and not self.sch.atomic:
            self.sch.ticks += 1
            self.gap -= 1
            if self.gap < 0:
                others = [j for j in range(len(self.done)) if not self.done[j] and j != self.cur]
                choice = self.choice
                self.next_switch()
                if others:
                    me = self.cur
                    self.cur = others[choice % len(others)]
                    self.sch.switches += 1
                    self.sch.trace.append((self.sch.ticks, self.cur))
                    self.sems[self.cur].release()
                    self.sems[me].acquire()
        return self.local


def parallel_for(body, its):
    its = list(its)
    sch = CURRENT
    if sch is None or sch.team is not None or not its:  # a loop within a loop is not divided any further
        for i in its:
            body(i)
        return
    sch.loops += 1
    sch.team = Team(sch, body, its)
    L = shim.lib()
    on = L.simio_clock_pause(1)  # the interpreter's own lock waits by the real clock; nothing here reads it
    try:
        sch.team.run()
    finally:
        sch.team = None
        if on:
            L.simio_clock_pause(0)


class Atomic:

    def __enter__(self):
        if CURRENT is not None:
            CURRENT.atomic += 1

    def __exit__(self, *a):
        if CURRENT is not None:
            CURRENT.atomic -= 1


ATOMIC = Atomic()


class Names(ast.NodeVisitor):
    """Names assigned in a piece of code, other than within functions."""

    def __init__(self):
        self.plain, self.aug = set(), set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.plain.add(n.id)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.aug.add(n.target.id)
        else:
            self.visit(n.target)
        self.visit(n.value)

    def visit_FunctionDef(self, n):
        self.plain.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def names_of(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v


class Reduce(ast.NodeTransformer):

    def __init__(self, names):
        self.names = names

    def visit_FunctionDef(self, n):
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and n.target.id in self.names:
            t = '__r_' + n.target.id
            a = ast.Assign(targets = [ast.Name(t, ast.Store())], value = n.value)
            n.value = ast.Name(t, ast.Load())
            return [a, ast.With(items = [ast.withitem(context_expr = ast.Name('__atomic', ast.Load()))], body = [n])]
        return n


class Loops(ast.NodeTransformer):
    """Outermost prange loops become calls of parallel_for."""

    def __init__(self, func):
        self.before = names_of(func.body)
        self.args = {a.arg for a in func.args.args + func.args.kwonlyargs}
        self.n = 0
        self.func = func

    def visit_For(self, n):
        if not is_prange(n.iter):
            self.generic_visit(n)
            return n
        self.n += 1
        inner = names_of(n.body)
        loop = names_of([ast.Assign(targets = [n.target], value = ast.Constant(0))]).plain
        outside = self.args | assigned_before(self.func, n)
        red = {x for x in inner.aug - inner.plain if x in outside} - loop
        private = sorted(x for x in (inner.plain | inner.aug) - red - loop if x in outside)
        body = [Reduce(red).visit(s) for s in n.body]
        flat = []
        for s in body:
            flat += s if isinstance(s, list) else [s]
        name = f'__body{self.n}'
        first = [ast.Assign(targets = [n.target], value = ast.Name('__it', ast.Load()))]
        for x in private:  # private to the thread, starting from the value outside
            first.append(ast.Assign(targets = [ast.Name(x, ast.Store())], value = ast.Name('__p_' + x, ast.Load())))
        decl = [ast.Nonlocal(names = sorted(red))] if red else []
        f = ast.FunctionDef(name = name, args = ast.arguments(posonlyargs = [], args = [ast.arg('__it')], kwonlyargs = [], kw_defaults = [], defaults = []), body = decl + first + flat,
                            decorator_list = [], type_params = [])
        pre = [try_copy(x) for x in private]
        call = ast.Expr(ast.Call(func = ast.Name('__parallel_for', ast.Load()), args = [ast.Name(name, ast.Load()), ast.Call(func = ast.Name('range', ast.Load()), args = n.iter.args, keywords = [])], keywords = []))
        return pre + [f, call]


def try_copy(x):
    return ast.Assign(targets = [ast.Name('__p_' + x, ast.Store())], value = ast.Name(x, ast.Load()))


def assigned_before(func, loop):
    """Names assigned in the function ahead of the loop, at the outer level."""
    out = []
    for s in func.body:
        if s is loop or any(x is loop for x in ast.walk(s)):
            break
        out.append(s)
    v = names_of(out)
    return v.plain | v.aug


def is_prange(it):
    return isinstance(it, ast.Call) and (getattr(it.func, 'id', None) == 'prange' or getattr(it.func, 'attr', None) == 'prange')


class Truth(ast.NodeTransformer):
    """Compiled booleans are identical to the constants; numpy's are not."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, bool):
            n.ops = [ast.Eq() if isinstance(n.ops[0], ast.Is) else ast.NotEq()]
        return n


def simulated(func):
    """The function with its parallel loops run by simulated threads."""
    tree = ast.parse(textwrap.dedent(inspect.getsource(func)))
    f = tree.body[0]
    f.decorator_list = []
    if f.returns is not None:
        f.returns = None
    for a in f.args.args + f.args.kwonlyargs:
        a.annotation = None
    lp = Loops(f)
    f.body = [y for s in f.body for y in (lambda r: r if isinstance(r, list) else [r])(lp.visit(s))]
    Truth().visit(f)
    if lp.n == 0:
        return func
    ast.fix_missing_locations(tree)
    ast.increment_lineno(tree, func.__code__.co_firstlineno - 1)
    g = func.__globals__
    g['__parallel_for'] = parallel_for
    g['__atomic'] = ATOMIC
    ns = {}
    exec(compile(tree, func.__code__.co_filename, 'exec'), g, ns)
    PARALLEL[func.__module__ + '.' + func.__name__] = lp.n
    out = ns[f.name]
    out.__doc__ = func.__doc__
    return out


def install():
    import numba

    def decorator(*args, **kw):
        if args and callable(args[0]):
            return plain(args[0])
        return simulated if kw.get('parallel') else plain

    def plain(f):
        return f

    numba.njit = numba.jit = decorator
    numba.prange = range
