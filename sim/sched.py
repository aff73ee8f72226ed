"""Deterministic scheduler for threads that run the code under test.

Every thread is traced; before each line (or each bytecode instruction) of the
code under test the simulator decides whether another thread continues.  One
thread runs at a time, so an execution is a function of the schedule alone.
The same hook raises exceptions into the code under test at a chosen step,
which is how cancellation and exhausted memory strike at arbitrary points.

A schedule is either {"seed", "gap"} (a new decision after at most gap steps)
or the explicit list {"switches": [[step, thread], ...]} that a replay file
contains."""

import random
import sys
import threading


class Cancelled(Exception):
    """Raised by the simulator into the code under test."""


class Aborted(BaseException):
    """Same, but not an Exception (like KeyboardInterrupt)."""


ABORTS = {"cancel": Cancelled, "base": Aborted, "memory": MemoryError, "interrupt": KeyboardInterrupt, "recursion": RecursionError,
          "kill": Aborted}


def watched(filename, cache={}):  # pylint: disable=dangerous-default-value
    rv = cache.get(filename)
    if rv is None:
        rv = cache[filename] = ("/trlc/" in filename and "/site-packages/" not in filename) or filename.endswith("trlc_rst.py")
    return rv


class Scheduler:
    def __init__(self, plan, opcodes=False):
        self.plan = plan or {}
        self.opcodes = opcodes
        self.rng = random.Random(self.plan.get("seed", 0))
        self.gap = self.plan.get("gap", 20)
        self.explicit = None
        if "switches" in self.plan:
            self.explicit = {s: t for s, t in self.plan["switches"]}
        self.step = 0
        self.switches = []
        self.abort_at = {}        # thread -> [own step, kind]
        self.own = {}
        self.fired = {}
        self.on_kill = None
        self.next = self.draw()

    def draw(self):
        return self.step + self.rng.randint(1, self.gap)

    # -- tracing -----------------------------------------------------------
    def tracer(self, me):
        opcodes = self.opcodes
        event_name = "opcode" if opcodes else "line"

        def local(frame, event, _arg):
            if event == event_name:
                self.tick(me)
            return local

        def trace(frame, event, _arg):
            if event == "call" and watched(frame.f_code.co_filename):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return trace

    def tick(self, me):
        self.step += 1
        self.own[me] += 1
        bad = self.abort_at.get(me)
        if bad and self.own[me] == bad[0]:
            self.fired[bad[1]] = self.fired.get(bad[1], 0) + 1
            if bad[1] == "kill" and self.on_kill:
                self.on_kill()
            raise ABORTS[bad[1]]("injected at step %u" % bad[0])
        if len(self.alive) > 1:
            target = None
            if self.explicit is not None:
                target = self.explicit.get(self.step)
            elif self.step >= self.next:
                self.next = self.draw()
                target = self.rng.choice(self.alive)
            if target is not None and target != me and target in self.alive:
                self.switches.append([self.step, target])
                self.hand(me, target)

    # -- baton -------------------------------------------------------------
    def hand(self, me, target):
        self.locks[target].release()
        if me is not None:
            self.locks[me].acquire()

    def run(self, tasks, aborts=None):
        """tasks: list of functions.  Returns list of (value, exception)."""
        n = len(tasks)
        self.alive = list(range(n))
        self.own = {i: 0 for i in range(n)}
        self.abort_at = dict(aborts or {})
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        done = threading.Semaphore(0)
        results = [(None, None)] * n

        def body(i):
            self.locks[i].acquire()
            value = exc = None
            sys.settrace(self.tracer(i))
            try:
                value = tasks[i]()
            except BaseException as e:  # pylint: disable=broad-except
                exc = e
            finally:
                sys.settrace(None)
            results[i] = (value, exc)
            self.alive.remove(i)
            if self.alive:
                if self.explicit is not None:
                    target = self.explicit.get(-i - 1, self.alive[0])
                    if target not in self.alive:
                        target = self.alive[0]
                else:
                    target = self.rng.choice(self.alive)
                self.switches.append([-i - 1, target])
                self.locks[target].release()
            else:
                done.release()
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        first = self.explicit.get(0, 0) if self.explicit is not None else self.rng.randrange(n)
        self.switches.append([0, first])
        self.locks[first].release()
        done.acquire()
        for t in threads:
            t.join()
        return results


def run_one(task, abort=None, opcodes=False):
    """A single task in the calling thread, with steps counted and an optional abort."""
    sched = Scheduler({}, opcodes)
    sched.alive = [0]
    sched.own = {0: 0}
    if abort:
        sched.abort_at = {0: abort}
    value = exc = None
    old = sys.gettrace()
    sys.settrace(sched.tracer(0))
    try:
        value = task()
    except BaseException as e:  # pylint: disable=broad-except
        exc = e
    finally:
        sys.settrace(old)
    return value, exc, sched
