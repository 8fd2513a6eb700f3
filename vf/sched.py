"""Runs tasks in threads of which one is active at a time, switching at lines of soapfish as a seed decides."""
import hashlib
import os
import sys
import threading

from .core import REPO

PREFIX = os.path.join(REPO, 'soapfish') + os.sep


class Interleaver:
    """Interleaves tasks at the lines of the code under test.

    The active thread may be blocked by something another one has (e.g. a lock): if it makes no progress another
    thread takes its turn, and it waits at the next line.
    """

    PATIENCE = 0.03

    def __init__(self, rng, probability, hot=None):
        self.rng, self.probability = rng, probability
        self.hot = hot  # (modulus, rest) of the numbers of lines at which it switches most of the time
        self.condition = threading.Condition()
        self.alive = []
        self.current = None
        self.lines = self.switches = self.stolen = 0
        self.local = threading.local()
        self.hash = hashlib.blake2b(digest_size=8)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line':
            self.step(frame.f_lineno)
        return self.line

    def step(self, number):
        """The current thread may have to wait here."""
        self.lines += 1
        me = self.local.index
        if self.current != me:
            self.wait(me)
        elif len(self.alive) > 1 and self.rng.random() < (0.7 if self.hot and number % self.hot[0] == self.hot[1] else self.probability):
            with self.condition:
                self.hash.update(b'%d@%d;' % (me, self.lines))
                self.switches += 1
                self.current = self.rng.choice([i for i in self.alive if i != me] or [me])
                self.condition.notify_all()
            self.wait(me)

    def wait(self, me):
        with self.condition:
            while self.current != me:
                before = self.lines
                if not self.condition.wait_for(lambda: self.current == me, self.PATIENCE) and self.lines == before:
                    self.current = me
                    self.stolen += 1

    def run(self, tasks):
        """Run all tasks, returns their results or exceptions."""
        results = [None] * len(tasks)
        self.alive = list(range(len(tasks)))
        self.current = self.rng.randrange(len(tasks))

        def work(i):
            self.local.index = i
            self.wait(i)
            sys.settrace(self.trace)
            try:
                results[i] = (tasks[i](), None)
            except BaseException as e:  # noqa: B902 Raised again by the caller.
                results[i] = (None, e)
            finally:
                sys.settrace(None)
                with self.condition:
                    self.alive.remove(i)
                    if self.alive and self.current == i:
                        self.current = self.rng.choice(self.alive)
                    self.condition.notify_all()

        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(tasks))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return results

    def id(self):
        return self.hash.hexdigest()


def stress(tasks):
    """Run all tasks in threads which start together and switch as often as possible."""
    results = [None] * len(tasks)
    barrier = threading.Barrier(len(tasks))

    def work(i):
        barrier.wait()
        try:
            results[i] = (tasks[i](), None)
        except BaseException as e:  # noqa: B902
            results[i] = (None, e)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(tasks))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    return results
