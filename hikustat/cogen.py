"""Generators which are driven from outside (send, several next() calls): the
body is interpreted on a thread of its own, one of the threads runs at a
time."""
import threading
from .values import *   # noqa


class Kill(BaseException):
    pass


class CoGen:
    def __init__(self, I, start):
        self.I = I
        self.start = start
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.thread = None
        self.stack = None
        self.depth = 0
        self.done = False
        self.running = False
        self.box = None
        self.sent = None
        self.error = None
        self.level = (len(I.oracles), tuple(I.open))
        I.cogens.append(self)

    def step(self, value, exc=None):
        """run to the next yield: ('yield', v) | ('return', v)"""
        I = self.I
        if self.running:
            raise I.exc('ValueError', Const('generator already executing'))
        if self.done:
            if exc is not None:
                raise exc
            return 'return', NONE
        if (len(I.oracles), tuple(I.open)) != self.level:
            raise Imprecise('a generator is resumed inside of a loop of '
                            'unknown length')
        saved = I.stack, I.depth
        self.sent = (value, exc)
        self.running = True
        try:
            if self.thread is None:
                if exc is not None:
                    self.done = True
                    raise exc
                self.stack = list(I.stack)
                self.depth = I.depth
                old = threading.stack_size(64 << 20)
                try:
                    self.thread = threading.Thread(target=self.run,
                                                   daemon=True)
                    I.stack, I.depth = self.stack, self.depth
                    self.thread.start()
                finally:
                    threading.stack_size(old)
            else:
                I.stack, I.depth = self.stack, self.depth
                self.go.release()
            self.back.acquire()
        finally:
            self.depth = I.depth
            I.stack, I.depth = saved
            self.running = False
        if self.error is not None:
            e, self.error = self.error, None
            self.done = True
            raise e
        return self.box

    def run(self):
        try:
            v = self.start(self.on_yield)
            self.box = ('return', v if v is not None else NONE)
        except Kill:
            return
        except BaseException as e:
            self.error = e
        self.done = True
        self.back.release()

    def on_yield(self, v):
        I = self.I
        if (len(I.oracles), tuple(I.open)) != self.level:
            raise Imprecise('yield inside of a loop of unknown length')
        self.box = ('yield', v)
        self.back.release()
        self.go.acquire()
        if self.sent is None:
            raise Kill()
        value, exc = self.sent
        if exc is not None:
            raise exc
        return value

    def kill(self):
        if self.thread is not None and not self.done:
            self.done = True
            self.sent = None
            self.go.release()
            self.thread.join()


def killall(I):
    gens, I.cogens = I.cogens, []
    for g in gens:
        g.kill()
