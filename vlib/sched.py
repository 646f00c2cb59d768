"""Two cooperating threads whose switches are decided by the harness.

The program's own threads run one at a time; control passes at scheduling points (queue, event, sleep and join calls).
`switch(n)` is asked whether to preempt at a voluntary point; blocked threads always give way."""
import _thread
import threading as _t

_Semaphore = _t.Semaphore


class Killed(BaseException):
    pass


class Stuck(BaseException):
    """no thread can make progress"""


class Sched:
    def __init__(self, switch):
        self.switch = switch
        self.threads = []
        self.dead = False
        self.me = None
        self.idle = 0
        self.main = self._slot()
        self.current = self.main

    def _slot(self):
        class S:
            pass
        s = S()
        s.sem = _Semaphore(0)
        s.done = False
        s.exc = None
        self.threads.append(s)
        return s

    def others(self):
        return [t for t in self.threads if t is not self.current and not t.done]

    def give(self, to):
        me = self.current
        self.current = to
        to.sem.release()
        me.sem.acquire()
        if self.dead:
            raise Killed()
        if me is self.main:
            self.reraise()

    def reraise(self):
        for t in self.threads:
            if t.exc is not None and not isinstance(t.exc, Exception):
                e, t.exc = t.exc, None
                raise e

    def point(self):
        o = self.others()
        if o and self.switch():
            self.give(o[0])

    def block(self):
        """nothing to do: let the other thread run"""
        self.idle += 1
        if self.idle > 200:
            raise Stuck()
        o = self.others()
        if not o:
            return False
        self.give(o[0])
        return True

    def progress(self):
        self.idle = 0

    def thread_class(self):
        S = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.daemon = daemon
                self.slot = None

            def start(self):
                self.slot = s = S._slot()

                def body():
                    s.sem.acquire()
                    try:
                        if not S.dead:
                            self.target(*self.args, **self.kwargs)
                    except Killed:
                        pass
                    except BaseException as e:
                        s.exc = e
                    s.done = True
                    if not S.dead:
                        S.current = S.main
                        S.main.sem.release()
                _thread.start_new_thread(body, ())
                S.point()

            def is_alive(self):
                S.point()
                return self.slot is not None and not self.slot.done

            def join(self, timeout=None):
                while not self.slot.done:
                    S.give(self.slot)
                    if timeout is not None:
                        return
                S.reraise()
        return Thread

    def event_class(self):
        S = self

        class Event:
            def __init__(self):
                self.f = False

            def is_set(self):
                S.point()
                return self.f

            def set(self):
                self.f = True
                S.progress()
                S.point()

            def clear(self):
                self.f = False

            def wait(self, timeout=None):
                if not self.f:
                    S.block()
                return self.f
        return Event

    def sleep(self, t=0):
        self.block()

    def stop(self):
        self.dead = True
        for t in self.threads[1:]:
            if not t.done:
                t.sem.release()
