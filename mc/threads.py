"""Two threads under a controlled scheduler: preemption at every line of wampproto.

Each thread performs the steps of one program (an iterator).  It runs only while it holds the baton, and gives it back when a
step is done or, if so told, before the n-th line that it executes inside wampproto during this step.  A schedule is therefore a
list of (thread, lines) pairs and can be replayed.
"""
import os
import sys
import threading

import wampproto

ROOT = os.path.dirname(os.path.abspath(wampproto.__file__)) + os.sep
PATIENCE = 1.0          # seconds until a thread that does not come back counts as waiting for the other one
ENDED, LINE, STEP = "ended", "line", "step"


class Deadlock(Exception):
    pass


class Actor:
    def __init__(self, steps, free):
        self.steps = steps
        self.free = free            # set: nobody is controlled any more
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.stop_at = None
        self.count = 0
        self.lines = []             # lines executed, step by step
        self.seen = []
        self.where = ENDED
        self.error = None
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.wait()
        sys.settrace(self.call)
        try:
            for got in self.steps:
                self.seen.append(got)
                self.lines.append(self.count)
                self.count = 0
                self.give(STEP)
        except BaseException as e:  # noqa: BLE001
            self.error = e
        finally:
            sys.settrace(None)
            self.where = ENDED
            self.back.release()

    def wait(self):
        if not self.free.is_set():
            self.go.acquire()

    def give(self, where):
        self.where = where
        if not self.free.is_set():
            self.back.release()
            self.wait()

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(ROOT) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.stop_at:
                self.give(LINE)
        return self.line


class Threads:
    def __init__(self, *programs):
        self.free = threading.Event()
        self.actors = [Actor(p, self.free) for p in programs]
        self.schedule = []
        self.waited = False

    def advance(self, i, lines=None):
        """Lets thread i run before its `lines`-th line of this step, or to the end of the step."""
        a = self.actors[i]
        self.schedule.append([i, lines])
        if self.free.is_set():
            return ENDED
        a.stop_at = lines
        a.go.release()
        if not a.back.acquire(timeout=PATIENCE):
            # it waits for something the other thread holds: this schedule does not exist
            self.release()
            return ENDED
        return a.where

    def release(self):
        self.waited = True
        self.free.set()
        for a in self.actors:
            a.go.release()

    def finish(self):
        for i, a in enumerate(self.actors):
            while not self.free.is_set() and a.thread.is_alive():
                if self.advance(i) == ENDED:
                    a.thread.join(PATIENCE)
                    break
        for a in self.actors:
            a.thread.join(20)
            if a.thread.is_alive():
                raise Deadlock()
            if a.error is not None:
                raise a.error


def lockstep(programs, r, s=None):
    """Both threads go on step by step; in each step the first one is interrupted before its r-th line, by the whole step of the
    second one or, if s is given, by the part of it before its s-th line (the first one then ends its step before the second).

    Gives (observations of both, whether anything was interrupted, schedule, whether one thread waited for the other)."""
    t = Threads(*programs)
    cut = False
    alive = [True, True]
    while any(alive) and not t.free.is_set():
        where = t.advance(0, r) if alive[0] else ENDED
        if where == LINE:
            cut = cut or alive[1]
            other = t.advance(1, s) if alive[1] else ENDED
            alive[0] = t.advance(0) != ENDED
            if other == LINE:
                other = t.advance(1)
            alive[1] = other != ENDED
        else:
            alive[0] = where != ENDED
            if alive[1]:
                alive[1] = t.advance(1) != ENDED
    t.finish()
    return [a.seen for a in t.actors], cut, t.schedule, t.waited


def span(program):
    """The most lines a step of the program executes."""
    t = Threads(program)
    t.finish()
    return max(t.actors[0].lines, default=0)
