"""Disks that fail part way and interrupts that come at any line, put under the running library."""
import builtins
import errno
import io
import os
import sys
import time


class Plan:
    """Counts what is done to files below `root` and fails at the k-th"""

    def __init__(self, root, at=None, again=False, piece=40):
        self.root = os.path.realpath(root) + os.sep
        self.at = at
        self.again = again
        self.piece = piece
        self.ticks = 0
        self.kinds = []
        self.failed = []
        self.files = []

    def tick(self, kind):
        self.ticks += 1
        self.kinds.append(kind)
        if self.at is not None and (self.ticks == self.at or self.again and self.failed and kind == self.failed[0]):
            self.failed.append(kind)
            code = {'open': errno.EMFILE, 'create': errno.ENOSPC, 'read': errno.EIO, 'write': errno.ENOSPC, 'close': errno.EIO}[kind]
            raise OSError(code, os.strerror(code) + ' (injected)')


class Raw(io.FileIO):
    def __init__(self, path, mode, plan):
        self.plan = None
        plan.tick('open' if mode == 'r' else 'create')
        io.FileIO.__init__(self, path, mode)
        self.plan = plan
        self.writing = mode != 'r'
        plan.files.append(self)

    def readinto(self, b):
        self.plan.tick('read')
        v = memoryview(b)[:self.plan.piece]
        return io.FileIO.readinto(self, v)

    def readall(self):
        out = []
        while True:
            b = bytearray(self.plan.piece)
            n = self.readinto(b)
            if not n:
                return b''.join(out)
            out.append(bytes(b[:n]))

    def write(self, b):
        self.plan.tick('write')
        return io.FileIO.write(self, bytes(b)[:self.plan.piece])

    def close(self):
        if self.closed:
            return
        io.FileIO.close(self)
        if self.plan is not None and self.writing:
            self.plan.tick('close')


class Disk:
    """open() goes through the plan for what lies below its root"""

    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        self.real = builtins.open
        plan = self.plan

        def opener(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            try:
                p = os.path.realpath(os.fspath(file))
            except TypeError:
                p = ''
            if not (isinstance(p, str) and p.startswith(plan.root)) or '+' in mode or buffering == 0:
                return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            kind = [c for c in 'rwax' if c in mode][0]
            raw = Raw(p, kind, plan)
            buf = io.BufferedReader(raw, plan.piece) if kind == 'r' else io.BufferedWriter(raw, plan.piece)
            if 'b' in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline)
        builtins.open = opener
        return self

    def __exit__(self, *a):
        builtins.open = self.real


class Interrupts:
    """Counts the lines of the library that run and raises `what` at the k-th"""

    def __init__(self, what=None, at=None, only=None):
        self.what = what
        self.at = at
        self.n = 0
        self.where = None
        self.groups = {}    # line and the line it was called from -> some of the times it was passed
        self.base = os.sep + os.path.join('lib', 'metaknowledge') + os.sep

    def line(self, frame, event, arg):
        if event == 'line' and self.where is None:
            self.n += 1
            if self.at is None:
                b = frame.f_back
                l = self.groups.setdefault((frame.f_code, frame.f_lineno, b and b.f_code, b and b.f_lineno), [])
                if len(l) < 8:
                    l.append(self.n)
            if self.n == self.at:
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                raise self.what('injected')
        return self.line

    def call(self, frame, event, arg):
        if self.base in frame.f_code.co_filename and self.where is None:
            return self.line
        return None

    def pick(self, rng):
        """A time to interrupt: any, or any of any line"""
        if rng.random() < 0.4 or not self.groups:
            return rng.randint(1, self.n)
        return rng.choice(rng.choice(list(self.groups.values())))

    def nowhere(self, info):
        self.lost = True

    def __enter__(self):
        self.lost = False       # it came while something was thrown away, where nothing can be raised
        self.oldHook, sys.unraisablehook = sys.unraisablehook, self.nowhere
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        sys.unraisablehook = self.oldHook


class Host:
    """open() as it is on a machine with another default encoding and line end, folders are listed in another order, and clocks show another zone"""

    def __init__(self, rng, encoding='utf-8', linesep='\n', zone='UTC'):
        self.rng, self.encoding, self.linesep, self.zone = rng, encoding, linesep, zone
        self.used = 0

    def __enter__(self):
        self.real = (builtins.open, io.open, os.listdir, None, os.environ.get('TZ'))
        host = self

        def opener(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if 'b' not in mode:
                host.used += encoding is None
                if encoding is None:
                    encoding = host.encoding
                if newline is None and 'r' not in mode:
                    newline = host.linesep
            return host.real[0](file, mode, buffering, encoding, errors, newline, closefd, opener)

        def listing(*a):
            out = host.real[2](*a)
            host.rng.shuffle(out)
            return out
        builtins.open = io.open = opener
        os.listdir = listing
        os.environ['TZ'] = self.zone
        time.tzset()
        return self

    def __exit__(self, *a):
        builtins.open, io.open, os.listdir = self.real[:3]
        if self.real[4] is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = self.real[4]
        time.tzset()
