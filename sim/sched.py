"""Seeded cooperative scheduler for real Python threads, and injection of
signals at exact points of the execution of the code under test."""
import os
import signal
import sys
import threading

import boot

PREFIX = os.path.join(os.path.realpath(boot.REPO), 'brainstorm') + os.sep


def in_repo(frame):
    """Is this code of brainstorm?  (Without the searches through the set of
    all classes, whose order depends on addresses.)"""
    c = frame.f_code
    return c.co_filename.startswith(PREFIX) and \
        not c.co_filename.endswith('describable.py') and \
        c.co_name != 'get_layer_class_from_typename'


class Killed(BaseException):
    pass


class Scheduler(object):
    """Runs functions as threads of which exactly one holds the baton.  At
    every yield point the seeded generator decides who goes on."""

    def __init__(self, rng, pswitch=0.2, line_prob=0.0, max_switch=20000):
        self.rng = rng
        self.p = pswitch
        self.line_prob = line_prob
        self.max_switch = max_switch
        self.tasks = []
        self.current = None
        self.trace = []
        self.main = threading.Semaphore(0)
        self.sems = []
        self.alive = []
        self.results = []
        self.ids = {}

    def add(self, fn):
        self.tasks.append(fn)

    def _body(self, i):
        self.sems[i].acquire()
        if self.line_prob:
            sys.settrace(self._tracer)
        try:
            self.results[i] = ('ok', self.tasks[i]())
        except BaseException as e:
            self.results[i] = ('error', e)
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            self._pick(i, leaving=True)

    def _tracer(self, frame, event, arg):
        if not in_repo(frame):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' and self.rng.random() < self.line_prob:
            self.yield_(force=True)
        return self._local

    def _pick(self, me, leaving=False):
        if not self.alive:
            self.main.release()
            return
        nxt = self.rng.choice(self.alive)
        self.trace.append(nxt)
        if nxt == me and not leaving:
            return
        self.current = nxt
        self.sems[nxt].release()
        if not leaving:
            self.sems[me].acquire()

    def yield_(self, force=False):
        me = self.ids.get(threading.get_ident())
        if me is None or len(self.alive) < 2 or \
                len(self.trace) > self.max_switch:
            return
        if force or self.rng.random() < self.p:
            self._pick(me)

    def run(self):
        n = len(self.tasks)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.results = [None] * n
        threads = []
        for i in range(n):
            t = threading.Thread(target=self._body, args=(i,))
            t.daemon = True
            threads.append(t)
            t.start()
            self.ids[t.ident] = i
        self._pick(None, leaving=True)
        self.main.acquire()
        for t in threads:
            t.join()
        return self.results


class LineCounter(object):
    """Counts executed lines of brainstorm code; optionally runs an action at
    given counts.  (Deterministic position inside the real code.)"""

    def __init__(self, at=(), action=None):
        self.at = set(at)
        self.action = action
        self.n = 0
        self.where = []

    def _global(self, frame, event, arg):
        if not in_repo(frame):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            n = self.n
            self.n = n + 1
            if n in self.at:
                self.where.append('%s:%s' % (
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_code.co_name))
                self.action()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def quit_signal():
    signal.raise_signal(signal.SIGQUIT)
