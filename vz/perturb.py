"""Schedule perturbation and crash points that do not depend on how the code is
written: a line tracer over chosen source files sleeps (hands the GIL over) at
randomly chosen lines, or kills the process at the n-th line."""
import os
import random
import signal
import sys
import threading
import time


class Perturb(object):
    """traces every thread started inside the block (and the calling one)"""

    def __init__(self, files, seed, p=.15, longest=4e-4, kill_at=None):
        self.files = tuple(files)
        self.rnd = random.Random(seed)
        self.p, self.longest, self.kill_at = p, longest, kill_at
        self.lines = 0
        self.points = set()

    def _call(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.endswith(self.files):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            self.points.add((frame.f_code.co_name, frame.f_lineno))
            if self.kill_at is not None and self.lines >= self.kill_at:
                os.kill(os.getpid(), signal.SIGKILL)
            r = self.rnd.random()
            if r < self.p:
                time.sleep(0 if r < self.p / 2 else self.longest * self.rnd.random())
        return self._line

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        threading.settrace(self._call)
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        threading.settrace(None)
        sys.setswitchinterval(self.interval)
