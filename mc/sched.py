"""Controlled scheduler: runs threaded code with exactly one thread advancing at a time.

Threads created through `threading.Thread` while a Sched is active are real threads that only
run when the scheduler hands them the baton.  At every scheduling point (thread start / end,
liveness polls, lock operations, sleeps, file effects, explicit points of the harness and, in
line mode, every line of chosen source files) the scheduler asks a Chooser which enabled thread
continues.  Enumerating the chooser's tree enumerates all interleavings with at most `bound`
preemptions (switches away from a thread that could go on); switches at blocking points are free.
With crash=True every point additionally offers "the process is killed here".
"""
import _thread
import ast
import queue
import sys
import threading
import time
import types

from mc.crashfs import Crash
from mc import core

_RealThread = threading.Thread
_real_lock = _thread.allocate_lock


class Deadlock(Exception):
    pass


class Task(object):
    def __init__(self, tid, thread=None):
        self.tid = tid
        self.thread = thread
        self.sem = _real_lock()
        self.sem.acquire()
        self.done = False
        self.stalled = False
        self.block = None
        self.polls = set()
        self.exc = None
        self.end_lock = _real_lock()
        self.end_lock.acquire()


class Sched(object):
    active = None

    def __init__(self, chooser, bound=2, crash=False, lines=False, ticking=False, bystanders=0, max_points=20000):
        self.chooser = chooser
        self.bound = bound
        self.crash = crash
        self.lines = lines
        self.ticking = ticking
        self.bystanders = bystanders
        self.max_points = max_points
        self.tasks = []
        self.by_ident = {}
        self.preempted = 0
        self.points = 0
        self.dead = False
        self.deadlock = None
        self.on_crash = []
        self.on_point = []
        self.clock = 1000.0
        self.idle_rounds = 0

    # ---- choosing ----------------------------------------------------------------------
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def enabled(self, t):
        return not t.done and not t.stalled and (t.block is None or t.block())

    def point(self, kind="step", key=None):
        me = self.me()
        if me is None:
            return
        if self.dead:
            raise Crash("dead")
        self.points += 1
        if self.points > self.max_points:
            self.fail("no termination within %d scheduling points" % self.max_points)
        if kind == "poll":
            if key in me.polls:
                me.stalled = True
            me.polls.add(key)
        elif kind == "sleep":
            me.stalled = True
        else:
            for t in self.tasks:
                if t is not me or kind != "line":
                    t.polls.clear()
                    t.stalled = False
            if kind != "line":
                self.idle_rounds = 0
        for f in self.on_point:
            f()
        self.schedule(me)
        if self.dead:
            raise Crash("dead")
        if self.deadlock:
            raise Deadlock(self.deadlock)

    def fail(self, msg):
        self.deadlock = msg
        raise Deadlock(msg)

    def schedule(self, me):
        """Pick who continues; returns when `me` is to continue (or has ended)."""
        en = [t for t in self.tasks if self.enabled(t)]
        if not en:
            stalled = [t for t in self.tasks if not t.done and t.stalled]
            if stalled and self.idle_rounds < 3:
                self.idle_rounds += 1
                for t in stalled:
                    t.stalled = False
                    t.polls.clear()
                en = [t for t in self.tasks if self.enabled(t)]
        if not en:
            if all(t.done for t in self.tasks):
                return
            self.deadlock = "no thread can advance: %s" % (
                [(t.tid, "polling" if t.stalled else "blocked") for t in self.tasks if not t.done],)
            en = [t for t in self.tasks if not t.done][:1]
            self.hand(me, en[0])
            return
        if me in en:
            opts = [me]
            if self.preempted < self.bound:
                opts += [t for t in en if t is not me]
        else:
            opts = en
        n = len(opts) + (1 if self.crash else 0)
        c = self.chooser(n) if n > 1 else 0
        if c == len(opts):
            self.kill()
            raise Crash("killed")
        nxt = opts[c]
        if me in en and nxt is not me:
            self.preempted += 1
        self.hand(me, nxt)

    def hand(self, me, nxt):
        if nxt is me:
            return
        nxt.sem.release()
        if not me.done:
            me.sem.acquire()

    def kill(self):
        """The process dies: every thread unwinds without any further effect."""
        self.dead = True
        for f in self.on_crash:
            f()
        me = self.me()
        for t in self.tasks:
            if not t.done and t is not me:
                t.sem.release()

    # ---- running -----------------------------------------------------------------------
    def run(self, fn):
        """fn() as the main thread, all threads it creates under control."""
        main = Task(0)
        self.tasks.append(main)
        ident = _thread.get_ident()
        self.by_ident[ident] = main
        saved = self.install()
        self.unfinished_at_return = []
        try:
            try:
                r = ("ok", fn())
            except Crash:
                r = ("crash", None)
        finally:
            main.done = True
            if not self.dead:
                self.unfinished_at_return = [t.tid for t in self.tasks if not t.done]
                self.dead = True
                for t in self.tasks:
                    if not t.done:
                        t.sem.release()
                was_killed = False
            else:
                was_killed = True
            for t in self.tasks[1:]:
                t.end_lock.acquire(True, 20)
            self.uninstall(saved)
            self.by_ident.pop(ident, None)
        self.killed = was_killed
        if was_killed:
            r = ("crash", None)
        return r

    def thread_main(self, task):
        task.sem.acquire()
        ident = _thread.get_ident()
        self.by_ident[ident] = task
        th = task.thread
        threading._active[ident] = th
        try:
            if not self.dead:
                th.run()
        except BaseException as e:
            if not isinstance(e, Crash):
                task.exc = e
        finally:
            threading._active.pop(ident, None)
            task.done = True
            try:
                if not self.dead:
                    for t in self.tasks:
                        t.polls.clear()
                        t.stalled = False
                    self.idle_rounds = 0
                    for f in self.on_point:
                        f()
                    self.schedule(task)
            except Crash:
                pass
            except BaseException as e:
                task.exc = e
                self.deadlock = "harness: %r" % (e,)
                self.tasks[0].sem.release()
            finally:
                self.by_ident.pop(ident, None)
                task.end_lock.release()

    # ---- patches -----------------------------------------------------------------------
    def install(self):
        Sched.active = self
        new = {(threading, "Thread"): CThread, (threading, "active_count"): c_active_count,
               (threading, "activeCount"): c_active_count,
               (threading, "Lock"): CLock, (threading, "_allocate_lock"): CLock, (threading, "RLock"): CRLock,
               (time, "sleep"): c_sleep, (time, "time"): c_clock, (time, "perf_counter"): c_clock, (time, "monotonic"): c_clock}
        if hasattr(queue, "_PySimpleQueue"):
            new[(queue, "SimpleQueue")] = queue._PySimpleQueue
        olds = {}
        for (m, n), v in new.items():
            if hasattr(m, n):
                olds[(m, n)] = getattr(m, n)
        # names imported into the code under test
        swap = {id(v): new[k] for k, v in olds.items()}
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] == "alipy" and m is not None:
                for n, v in list(vars(m).items()):
                    if id(v) in swap and (callable(v)):
                        olds[(m, n)] = v
                        new[(m, n)] = swap[id(v)]
        for (m, n), v in new.items():
            if (m, n) in olds:
                setattr(m, n, v)
        return olds

    def uninstall(self, olds):
        Sched.active = None
        for (m, n), v in olds.items():
            setattr(m, n, v)


def caller_key(obj, depth=2):
    f = sys._getframe(depth)
    return (f.f_code.co_filename, f.f_lineno, f.f_lasti, id(obj))


def c_clock():
    s = Sched.active
    if s is None:
        return 0.0
    if s.ticking:
        s.clock += 10.0
    return s.clock


def c_sleep(dt):
    s = Sched.active
    if s is not None:
        s.clock += dt
        s.point("sleep")


def c_active_count():
    s = Sched.active
    s.point("poll", caller_key(None))
    return s.bystanders + len([t for t in s.tasks if not t.done])


class CThread(_RealThread):
    _task = None

    def start(self):
        s = Sched.active
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        t = Task(len(s.tasks), self)
        self._task = t
        s.tasks.append(t)
        self._ident = _thread.start_new_thread(s.thread_main, (t,))
        s.point("start")

    def is_alive(self):
        s = Sched.active
        if s is not None:
            s.point("poll", caller_key(self))
        return self._task is not None and not self._task.done

    isAlive = is_alive

    def join(self, timeout=None):
        s = Sched.active
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        if timeout is not None:
            s.point("poll", caller_key(self))
            return
        wait(s, lambda: self._task.done)


def wait(s, cond):
    """Block the current thread until cond()."""
    me = s.me() if s is not None else None
    if me is None:
        return
    me.block = cond
    try:
        s.point("wait")
    finally:
        me.block = None


class CLock(object):
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.active
        if s is not None and s.me() is not None and not s.dead:
            if blocking and (timeout is None or timeout < 0):
                wait(s, lambda: not self.held)
            elif self.held:
                s.point("poll", caller_key(self))
        if self.held:
            return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        s = Sched.active
        if s is not None and not s.dead and s.me() is not None:
            s.point("release")

    def locked(self):
        return self.held

    def _at_fork_reinit(self):
        self.held = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class CRLock(object):
    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        i = _thread.get_ident()
        if self.owner == i:
            self.count += 1
            return True
        s = Sched.active
        if s is not None and s.me() is not None and not s.dead:
            if blocking and (timeout is None or timeout < 0):
                wait(s, lambda: self.owner is None)
            elif self.owner is not None:
                s.point("poll", caller_key(self))
        if self.owner is not None:
            return False
        self.owner, self.count = i, 1
        return True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            s = Sched.active
            if s is not None and not s.dead and s.me() is not None:
                s.point("release")

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        st = (self.count, self.owner)
        self.count, self.owner = 0, None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count, self.owner = st

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


# ---- statement granularity ---------------------------------------------------------------

def _line_point():
    s = Sched.active
    if s is not None and s.lines and not s.dead:
        s.point("line")


def _with_points(body):
    out = []
    for st in body:
        if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) and not isinstance(
                st, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)):
            p = ast.parse("__mc_point__()").body[0]
            for n in ast.walk(p):
                ast.copy_location(n, st)
            out.append(p)
        for field in ("body", "orelse", "finalbody"):
            if getattr(st, field, None):
                setattr(st, field, _with_points(getattr(st, field)))
        for h in getattr(st, "handlers", ()):
            h.body = _with_points(h.body)
        if isinstance(st, ast.While):
            # the condition is evaluated again without passing a statement
            p = ast.parse("__mc_point__()").body[0]
            for n in ast.walk(p):
                ast.copy_location(n, st)
            st.body.append(p)
        out.append(st)
    return out


def statement_points(*modules):
    """Insert a scheduling point before every statement of every function of the modules (by
    replacing the functions' code with the same source compiled with calls inserted)."""
    for mod in modules:
        if hasattr(mod, "__mc_point__"):
            continue
        with open(mod.__file__) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, ast.FunctionDef):
                node.body = _with_points(node.body)
        top = compile(tree, mod.__file__, "exec")
        mod.__mc_point__ = _line_point
        codes = {}

        def collect(code, path):
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    codes[path + (c.co_name,)] = c
                    collect(c, path + (c.co_name,))
        collect(top, ())

        def patch(ns, path):
            for n, v in list(vars(ns).items()):
                fn = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
                fn = fn.fget if isinstance(fn, property) else fn
                if isinstance(fn, types.FunctionType) and fn.__module__ == mod.__name__:
                    c = codes.get(path + (fn.__code__.co_name,))
                    if c is not None and c.co_freevars == fn.__code__.co_freevars:
                        fn.__code__ = c
                elif isinstance(v, type) and v.__module__ == mod.__name__:
                    patch(v, path + (v.__name__,))
        patch(mod, ())


# ---- enumeration -------------------------------------------------------------------------

TRACE = []      # (choice, arity) list of the last execution


def remember(chooser):
    TRACE[:] = chooser.trace


def alternatives(trace, start):
    out = []
    for i in range(len(trace) - 1, start - 1, -1):
        c, n = trace[i]
        base = [x for x, _ in trace[:i]]
        for alt in range(n - 1, 0, -1):
            out.append(base + [alt])
    return out


def subtree(ctx, fn, args, prefix, cap=None):
    stack = [prefix]
    n = 0
    while stack:
        pre = stack.pop()
        TRACE[:] = []
        ctx.case(fn, *(args + (pre,)))
        n += 1
        ctx.stats.transitions += len(TRACE)
        ctx.stats.extra["schedules"] += 1
        if cap and n >= cap and stack:
            ctx.stats.caps.append("schedule cap %d in %s%r" % (cap, fn.__name__, args))
            return
        stack.extend(alternatives(TRACE, len(pre)))


def jobs_for(ctx, fn, args, split=2):
    """Root schedule executed here; returns subtree jobs for ctx.jobs."""
    out = []
    level = [[]]
    for _ in range(split):
        nxt = []
        for pre in level:
            TRACE[:] = []
            ctx.case(fn, *(args + (pre,)))
            ctx.stats.transitions += len(TRACE)
            ctx.stats.extra["schedules"] += 1
            nxt.extend(alternatives(TRACE, len(pre)))
        level = nxt
        if len(level) > 64:
            break
    for pre in level:
        out.append((subtree, (ctx, fn, args, pre)))
    return out


def explore_all(ctx, cases, split=1):
    """cases: list of (fn, args). Every schedule of every case, over all workers."""
    jobs = []
    for fn, args in cases:
        jobs.extend(jobs_for(ctx, fn, args, split))
    if jobs:
        ctx.jobs(jobs)


