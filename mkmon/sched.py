"""Threads of which one runs at a time, and which hand over between lines of the library where a random generator says so."""
import gc
import hashlib
import os
import sys
import threading

BASE = os.sep + os.path.join('lib', 'metaknowledge') + os.sep


class Schedule:
    def __init__(self, rng, often):
        self.rng = rng
        self.often = often
        self.live = []
        self.sems = []
        self.lines = 0
        self.switches = 0
        self.places = set()
        self.digest = hashlib.md5()
        self.wedged = False

    def line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if len(self.live) > 1 and self.rng.random() < self.often:
                me = threading.current_thread().number
                other = self.rng.choice([t for t in self.live if t != me])
                place = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                self.places.add(place)
                self.digest.update(repr((me, other, place)).encode())
                self.switches += 1
                self.sems[other].release()
                self.sems[me].acquire()
        return self.line

    def call(self, frame, event, arg):
        return self.line if BASE in frame.f_code.co_filename else None

    def body(self, n, fn, out):
        self.sems[n].acquire()
        sys.settrace(self.call)
        try:
            out[n] = fn()
        except BaseException as e:
            out[n] = e
        finally:
            sys.settrace(None)
            self.live.remove(n)
            if self.live:
                self.sems[self.rng.choice(self.live)].release()

    def run(self, fns):
        """What the functions return, or the exceptions they raise"""
        out = [None] * len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.live = list(range(len(fns)))
        ts = []
        for n, fn in enumerate(fns):
            t = threading.Thread(target=self.body, args=(n, fn, out), daemon=True)
            t.number = n
            t.start()
            ts.append(t)
        # a generator of the package that the collector ends would hand over in the middle of another module's line
        collecting = gc.isenabled()
        gc.disable()
        try:
            self.sems[self.rng.choice(self.live)].release()
            for t in ts:
                t.join(60)
                self.wedged = self.wedged or t.is_alive()
        finally:
            if collecting:
                gc.enable()
        return out
