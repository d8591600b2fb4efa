"""Controlled schedules of threads.

Only one thread runs at a time. A thread gives up the turn at the chosen steps
(a step is a line, or a bytecode instruction, executed in the code under test),
so a run is a function of the programs and of the schedule. When the thread
whose turn it is waits for something which another one holds, the schedule is
given up after a while and all of them run freely (nothing is judged by time).
"""
import sys
import threading

from . import pbt

PATIENCE = 1.0


class Threads:
    def __init__(self, programs, points=None, opcodes=False):
        """points: for each program the set of steps before which it gives up the turn."""
        self.programs = programs
        self.points = points or [frozenset()] * len(programs)
        self.opcodes = opcodes
        n = len(programs)
        self.steps = [0] * n
        self.done = [False] * n
        self.results = [None] * n
        self.turn = [threading.Event() for _ in range(n)]
        self.free = False
        self.switches = 0

    def run(self):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.programs))]
        for t in ts:
            t.start()
        self.turn[0].set()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise pbt.Violation('threads do not finish')
        return self.results

    def _thread(self, i):
        self._wait(i)
        try:
            sys.settrace(self._tracer(i))
            try:
                self.results[i] = ('ok', self.programs[i]())
            finally:
                sys.settrace(None)
        except Exception as e:  # pylint: disable=broad-except
            self.results[i] = ('exc', type(e).__name__, str(e))
        self.done[i] = True
        j = self._next(i)
        if j is not None:
            self.turn[j].set()

    def _wait(self, i):
        if not self.free and not self.turn[i].wait(PATIENCE * (1 if self.steps[i] else 12)):
            self.free = True
            for e in self.turn:
                e.set()
        if not self.free:
            self.turn[i].clear()

    def _next(self, i):
        n = len(self.programs)
        for k in range(1, n):
            j = (i + k) % n
            if not self.done[j]:
                return j
        return None

    def _tracer(self, i):
        mark = pbt.REPO_MARK[0]
        points, steps, opcodes = self.points[i], self.steps, self.opcodes
        wanted = 'opcode' if opcodes else 'line'

        def local(frame, event, arg):
            if event == wanted:
                steps[i] += 1
                if steps[i] in points and not self.free:
                    j = self._next(i)
                    if j is not None:
                        self.switches += 1
                        self.turn[j].set()
                        self._wait(i)
            return local

        def top(frame, event, arg):
            if not frame.f_code.co_filename.startswith(mark):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return top


def alone(program, opcodes=False):
    """-> (result, number of steps)"""
    t = Threads([program], opcodes=opcodes)
    return t.run()[0], t.steps[0]
