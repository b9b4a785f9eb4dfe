"""
Controlled scheduler: runs real threads of the code under test one at a time, switching only at
scheduling points (every source line executed in the package, lock operations, thread ends), as
an explicit plan says, and enumerates all plans with at most a bounded number of preemptions
(iterative context bounding: the default is to go on with the running thread).

Each execution happens in a forked child of a process which has imported the package but never
called it, so that lazily built state is built anew under every schedule.
"""

import _thread
import os
import pickle
import select
import signal
import sys
import threading
import time

real_lock = _thread.allocate_lock
CURRENT = None  # scheduler of the execution in progress


class Deadlock(BaseException):
    pass


class Abort(BaseException):
    pass


class CoopLock:
    """Stand-in for threading.Lock and RLock which blocks through the scheduler."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        s = CURRENT
        return s.tid() if s is not None else -1

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = CURRENT
        if s is not None and me >= 0:
            s.point(me, "lock")
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if s is None or me < 0:
                raise Deadlock("lock is held and nothing is running")
            if timeout is not None and timeout > 0:
                # the owner may keep the lock for any time: the first timeout of a thread expires,
                # and so does one while everybody else is blocked
                if me not in s.expired or not s.others(me):
                    s.expired.add(me)
                    return False
            s.block(me, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            if CURRENT is not None:
                CURRENT.wake(self)

    def locked(self):
        return self.count > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True

    def _is_owned(self):
        return self.count > 0 and self.owner == self._me()


def import_patched(core):
    """Import the package with its locks under the scheduler's control."""
    import logging  # noqa: F401 (creates its own locks before patching)
    import queue  # noqa: F401
    import socket  # noqa: F401

    saved = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = CoopLock, CoopRLock
    try:
        P = core.use_repo()
    finally:
        threading.Lock, threading.RLock = saved
    # locks the package looks up on the threading module when it is called
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "pynmeagps":
            for att, val in list(vars(mod).items()):
                if val is threading:
                    setattr(mod, att, _Threading())
    return P


class _Threading:
    """The threading module as the package sees it."""

    Lock = CoopLock
    RLock = CoopRLock

    def __getattr__(self, name):
        return getattr(threading, name)


class Sched:
    """
    One execution. plan: {step: thread} switches to that thread at that global step;
    starts: order of preference when no thread is running.
    """

    def __init__(self, fns, plan, first, src):
        self.fns, self.plan, self.src = fns, plan, src
        self.order = [first] + [t for t in range(len(fns)) if t != first]
        self.gates = [real_lock() for _ in fns]
        for g in self.gates:
            g.acquire()
        self.done_gate = real_lock()
        self.done_gate.acquire()
        self.state = ["ready"] * len(fns)  # ready, blocked, done
        self.waiting = {}
        self.results = [None] * len(fns)
        self.idents = {}
        self.step = 0
        self.enabled_at = []  # per step: (thread, other ready threads)
        self.where = []
        self.dead = None
        self.switches = 0
        self.expired = set()

    def tid(self):
        return self.idents.get(_thread.get_ident(), -1)

    def others(self, me):
        return [t for t in self.order if t != me and self.state[t] == "ready"]

    def point(self, me, where):
        """Scheduling point of the running thread."""
        step = self.step
        self.step += 1
        others = self.others(me)
        self.enabled_at.append((me, others))
        self.where.append(where)
        to = self.plan.get(step)
        if to is not None and to in others:
            self.switch(me, to)

    def switch(self, me, to):
        self.switches += 1
        self.gates[to].release()
        self.gates[me].acquire()
        if self.dead:
            raise Abort()

    def block(self, me, lock):
        self.state[me] = "blocked"
        self.waiting[me] = lock
        others = self.others(me)
        if not others:
            self.dead = f"deadlock: threads {sorted(self.waiting)} wait for locks"
            self.done_gate.release()
            raise Abort()
        self.switch(me, others[0])

    def wake(self, lock):
        for t, l in list(self.waiting.items()):
            if l is lock:
                del self.waiting[t]
                self.state[t] = "ready"

    def finish(self, me):
        self.state[me] = "done"
        if self.dead:
            return
        others = self.others(me)
        if others:
            self.gates[others[0]].release()
        elif any(s == "blocked" for s in self.state):
            self.dead = f"deadlock: threads {sorted(self.waiting)} wait for locks"
            self.done_gate.release()
        else:
            self.done_gate.release()

    def body(self, me):
        self.idents[_thread.get_ident()] = me
        self.gates[me].acquire()
        src = self.src

        def local(frame, event, _arg):
            if event == "line":
                self.point(me, (frame.f_code.co_filename[len(src) :], frame.f_code.co_name, frame.f_lineno))
            return local

        def tracer(frame, event, _arg):
            if frame.f_code.co_filename.startswith(src):
                return local
            return None

        try:
            sys.settrace(tracer)
            try:
                self.results[me] = self.fns[me]()
            finally:
                sys.settrace(None)
        except Abort:
            return
        except BaseException as err:  # pylint: disable=broad-except
            self.results[me] = ("exception", repr(err))
        self.finish(me)

    def run(self):
        global CURRENT
        CURRENT = self
        for t in range(len(self.fns)):
            _thread.start_new_thread(self.body, (t,))
        while len(self.idents) < len(self.fns):
            time.sleep(0)
        self.gates[self.order[0]].release()
        self.done_gate.acquire()
        CURRENT = None
        return self


def _die_with_parent():
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass


def in_child(fun, timeout=20):
    """
    Result of fun() computed in a forked child: ("ok", value), ("died", why) or ("hang", why).
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            _die_with_parent()
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            try:
                out = pickle.dumps(("ok", fun()))
            except BaseException:  # pylint: disable=broad-except
                import traceback

                out = pickle.dumps(("died", traceback.format_exc()[-1500:]))
            with os.fdopen(w, "wb") as f:
                f.write(out)
            code = 0
        except BaseException:  # pylint: disable=broad-except
            pass  # the parent is gone
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        if not select.select([r], [], [], left)[0]:
            continue
        part = os.read(r, 1 << 20)
        if not part:
            break
        buf += part
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hang:
        return ("hang", f"no answer within {timeout} s")
    if status != 0 or not buf:
        return ("died", f"status {status}")
    return pickle.loads(buf)


def execute(make, plan, first, src, timeout=20):
    """
    Run the threads made by make() under a plan, in a forked child.
    Returns ("ok", {results, dead, steps, enabled, where}) or a failure of in_child.
    """

    def go():
        fns, collect = make()
        s = Sched(fns, plan, first, src).run()
        return {
            "results": s.results,
            "dead": s.dead,
            "steps": s.step,
            "enabled": s.enabled_at,
            "where": s.where,
            "shared": collect() if collect and not s.dead else None,
        }

    return in_child(go, timeout)


def _first(where, step, times, count):
    """Is this step among the first `times` executions of its line?"""
    count[where] = count.get(where, 0) + 1
    return times is None or count[where] <= times


def plans(enabled, where, plan, last, times=None, only=None):
    """Plans which extend `plan` by one preemption after step `last` (only where only(where))."""
    count = {}
    for step, (me, others) in enumerate(enabled):
        if only is not None and not only(where[step]):
            continue
        if not _first((me, where[step]), step, times, count) or step <= last:
            continue
        for t in others:
            yield step, {**plan, step: t}


def explore(make, n, bound, src, visit, starts=None, within=None, times=None):
    """
    All executions of n threads with at most `bound` preemptions, each in a fresh process image.
    visit(plan, first, result) is called for each; within(k) may restrict the enumeration to a
    slice of the first level; times: preempt only at the first `times` executions of a line.
    """
    work = []
    for first in starts if starts is not None else range(n):
        work.append(({}, first, -1))
    seq = 0
    while work:
        plan, first, last = work.pop()
        res = execute(make, plan, first, src)
        if visit(plan, first, res) is False:
            return
        if res[0] != "ok" or len(plan) >= bound:
            continue
        for step, ext in plans(res[1]["enabled"], res[1]["where"], plan, last, times):
            if not plan:
                seq += 1
                if within is not None and not within(seq):
                    continue
            work.append((ext, first, step))


def explore_warm(make, n, bound, src, judge, starts=None, within=None, times=None, only=None, timeout=600):
    """
    The same enumeration, with all executions in one forked child, one after the other.
    judge(plan, first, result) runs in the child and returns None or what is wrong.
    Returns ("ok", {schedules, steps, wrong: [(plan, first, text)], outcomes}) or a failure.
    """

    def go():
        out = {"schedules": 0, "steps": 0, "states": 0, "wrong": []}
        work = [({}, f, -1) for f in (starts if starts is not None else range(n))]
        seq = 0
        while work and len(out["wrong"]) < 3:
            plan, first, last = work.pop()
            fns, collect = make()
            s = Sched(fns, plan, first, src).run()
            out["schedules"] += 1
            out["steps"] += s.step
            out["states"] += s.step - (max(plan) if plan else 0)
            res = {
                "results": s.results, "dead": s.dead, "steps": s.step, "where": s.where,
                "shared": collect() if collect and not s.dead else None,
            }
            bad = judge(plan, first, res)
            if bad:
                out["wrong"].append((plan, first, bad))
            if s.dead:
                break
            if len(plan) >= bound:
                continue
            for step, ext in plans(s.enabled_at, s.where, plan, last, times, only):
                if not plan:
                    seq += 1
                    if within is not None and not within(seq):
                        continue
                work.append((ext, first, step))
        return out

    return in_child(go, timeout)
