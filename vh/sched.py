"""Threads of which only one runs at a time, switched at chosen lines of the code under test."""
import sys
import threading

from vh.core import REPO

CODE = REPO + "/abl/"
STUCK_S = 0.1
MOST = 1500


class Stop(BaseException):
    pass


class Baton(object):
    """Runs the plans in threads; the schedule is a list of (lines to run, which thread next).

    A switch can happen before any line of the code under test.  The schedule is gone through
    again and again; after MOST switches the threads run on one after the other.  A thread that waits for another one (a lock of
    the code under test) loses the baton after a moment.
    """

    def __init__(self, plans, schedule, skip=0):
        self.plans = plans
        self.schedule = list(schedule)
        self.cond = threading.Condition()
        self.alive = list(range(len(plans)))
        self.turn = None
        self.skip = skip     # lines before the first switch
        self.left = 0
        self.ticks = 0
        self.switches = 0
        self.picks = 0
        self.stopped = False
        self.errors = []

    def pick(self):
        """The next thread and how long it runs."""
        if not self.alive:
            self.turn = None
            return
        old = self.turn
        if self.switches < MOST and self.picks < 4 * MOST:
            self.left, who = self.schedule[self.picks % len(self.schedule)]
            if not self.picks:
                self.left += self.skip
            self.picks += 1
            self.turn = self.alive[who % len(self.alive)]
        else:
            self.left = 1 << 60
            if self.turn not in self.alive:
                self.turn = self.alive[0]
        if old is not None and old != self.turn:
            self.switches += 1

    def tick(self, me):
        with self.cond:
            if self.stopped:
                raise Stop()
            self.ticks += 1
            if self.turn == me:
                if self.left > 0:
                    self.left -= 1
                    return
                self.pick()
                self.cond.notify_all()
            self.await_turn(me)

    def await_turn(self, me):
        while self.turn != me:
            seen = self.ticks
            if not self.cond.wait(STUCK_S) and seen == self.ticks and self.turn is not None \
                    and self.turn != me:
                # the one with the baton waits for something
                self.turn = me
                self.left = 5
                self.cond.notify_all()
            if self.stopped:
                raise Stop()

    def work(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.tick(me)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(CODE) else None

        try:
            with self.cond:
                self.await_turn(me)
            sys.settrace(tracer)
            try:
                self.plans[me]()
            finally:
                sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:
            self.errors.append((me, e))
        finally:
            with self.cond:
                self.alive.remove(me)
                if self.turn == me:
                    self.pick()
                self.cond.notify_all()

    def run(self):
        """Run all to their end; raises the first error."""
        threads = [threading.Thread(target=self.work, args=(k,), daemon=True)
                   for k in range(len(self.plans))]
        self.pick()
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            with self.cond:
                self.stopped = True
                self.cond.notify_all()
        if self.errors:
            raise self.errors[0][1]
