# -*- coding: utf-8 -*-
"""A controlled scheduler: real threads running real code, switched only before statements of the watched modules (and
at sleeps). The watched modules are imported from their source as it is, with a call put before every statement.

explore() runs a scenario once per schedule with at most `bound` preemptions, depth first, without repeating one.
"""
import ast
import os
import Queue as queue
import sys
import threading
import types
from java.util.concurrent import Semaphore
import time as _time

real_sleep = _time.sleep
mine = threading.local()


def spread(body):
    out = []
    for st in body:
        point = ast.Expr(ast.Call(func=ast.Name(id='__mc_point__', ctx=ast.Load()), args=[ast.Num(n=st.lineno)], keywords=[], starargs=None, kwargs=None))
        out.append(ast.copy_location(point, st))
        out.append(st)
    return out



def walk(node, inside):
    for child in ast.iter_child_nodes(node):
        walk(child, inside or isinstance(node, ast.FunctionDef))
    if inside or isinstance(node, ast.FunctionDef):
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(node, field, None)
            if isinstance(body, list) and body and isinstance(body[0], ast.stmt):
                setattr(node, field, spread(body))


def load(name):
    """Import a module with a point before every statement of every function."""
    if name in sys.modules:
        return sys.modules[name]
    parent, _, last = name.rpartition('.')
    __import__(parent)
    path = os.path.join(os.path.dirname(sys.modules[parent].__file__), last + '.py')
    with open(path) as f:
        tree = ast.parse(f.read(), path)

    walk(tree, False)
    ast.fix_missing_locations(tree)
    module = types.ModuleType(name)
    module.__file__ = path
    module.__package__ = parent
    module.__mc_point__ = reached
    sys.modules[name] = module
    exec compile(tree, path, 'exec') in module.__dict__
    setattr(sys.modules[parent], last, module)
    return module


def reached(line):
    task = getattr(mine, 'task', None)
    if task is not None:
        task.where = line
        task.point()


class Sleep(object):
    """Stands in for time.sleep."""

    def __call__(self, seconds):
        task = getattr(mine, 'task', None)
        if task is None:
            return real_sleep(seconds)
        task.sleep(seconds)


sleeping = Sleep()


class Killed(BaseException):
    pass


class Task(object):
    def __init__(self, sched, name, func):
        self.sched, self.name, self.func = sched, name, func
        self.go = Semaphore(0)
        self.state = 'ready'    # ready, asleep (until another task has made a step), done
        self.error = None
        self.sleeps = 0
        self.where = self.on_wake = None
        self.thread = None
        if func is not None:
            self.thread = threading.Thread(target=self._body)
            self.thread.setDaemon(True)

    def _body(self):
        self.go.acquire()
        mine.task = self
        try:
            self.func(self)
        except Killed:
            pass
        except BaseException as e:
            self.error = e
        finally:
            mine.task = None
            self.state = 'done'
            self.sched.back.release()

    def point(self, state='ready'):
        self.state = state
        self.sched.back.release()
        self.go.acquire()
        if self.sched.dead:
            raise Killed()
        self.state = 'ready'

    def sleep(self, seconds):
        self.sleeps += 1
        self.point('asleep')
        if self.on_wake is not None:
            self.on_wake(self)


class Sched(object):
    """choices: the task to run at each decision; after those, stay with the current task as long as it can run."""

    def __init__(self, choices=()):
        self.choices = list(choices)
        self.wakers = (0,)      # whose steps wake those who sleep
        self.tasks, self.back, self.dead = [], Semaphore(0), False
        self.log, self.decisions = [], []

    def add(self, name, func):
        t = Task(self, name, func)
        self.tasks.append(t)
        return t

    def run(self, limit=20000, on_step=None, stuck=None):
        for t in self.tasks:
            _start(t.thread)
        current = None
        steps = 0
        while True:
            ready = [i for i, t in enumerate(self.tasks) if t.state == 'ready']
            if not ready:
                asleep = [i for i, t in enumerate(self.tasks) if t.state == 'asleep']
                if not asleep:
                    break
                if stuck is not None and not stuck(self):
                    break
                ready = asleep
            k = len(self.decisions)
            if k < len(self.choices):
                pick = self.choices[k]
                if pick not in ready:
                    raise RuntimeError('the schedule does not repeat: %r not in %r' % (pick, ready))
            else:
                pick = current if current in ready else ready[0]
            self.decisions.append((pick, tuple(ready), current))
            t = self.tasks[pick]
            before = t.state
            t.state = 'running'
            t.go.release()
            self.back.acquire()
            if t.state != 'asleep':
                for o in self.tasks:
                    if pick in self.wakers and o is not t and o.state == 'asleep':
                        o.state = 'ready'
            current = pick
            steps += 1
            if on_step is not None:
                on_step(t)
            if steps > limit:
                raise RuntimeError('more than %d steps' % limit)
        self.kill()
        return steps

    def kill(self):
        self.dead = True
        for t in self.tasks:
            if t.state != 'done':
                t.go.release()
                self.back.acquire()


_start = threading.Thread.start


def adopt():
    """Threads that a task starts become tasks of the same schedule."""
    def start(thread):
        task = getattr(mine, 'task', None)
        if task is None:
            return _start(thread)
        child = Task(task.sched, thread.getName(), None)
        inner = thread.run

        def run():
            child.func = lambda t: inner()
            child._body()
        thread.run = run
        child.thread = thread
        task.sched.tasks.append(child)
        _start(thread)
    threading.Thread.start = start


_Queue = queue.Queue


class Queue(_Queue):
    """Stands in for Queue.Queue: a task that finds it empty sleeps."""

    def get(self, block=True, timeout=None):
        task = getattr(mine, 'task', None)
        if task is None:
            return _Queue.get(self, block, timeout and 0.0005)
        while self.empty():
            if not block:
                raise queue.Empty
            task.sleep(timeout or 0)
            if timeout is not None and self.empty():
                raise queue.Empty
        return _Queue.get(self, False)


def preemptions(decisions):
    return sum(1 for pick, ready, cur in decisions if cur is not None and cur in ready and pick != cur)


def explore(make, bound, part=(0, 1)):
    """make(choices) -> decisions made; every schedule once; part (i, n) takes the i-th of n parts of the tree."""
    stack = [[]]
    n = 0
    while stack:
        choices = stack.pop()
        decisions = make(choices)
        n += 1
        for k in range(len(choices), len(decisions)):
            if not choices and k % part[1] != part[0]:
                continue
            pick, ready, cur = decisions[k]
            for alt in ready:
                if alt == pick:
                    continue
                head = decisions[:k] + [(alt, ready, cur)]
                if preemptions(head) <= bound:
                    stack.append([d[0] for d in head])
    return n
