"""Runs functions in a process that has never built or run a model: a pristine
child is forked when this module is used first (before any model is made); every
request is answered by a fork of that child, so that nothing a model leaves behind
in its process (class attributes, module globals) can reach the reference."""
import os
import pickle
import signal
import struct
import sys

from .core import CPU_SECONDS, Violation

_z = None


def _busy(*a):
    raise Violation("not finished after %d s of processor time" % CPU_SECONDS)


def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _get(fd):
    (n,) = struct.unpack("<Q", _read(fd, 8))
    return pickle.loads(_read(fd, n))


def _put(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class Zygote:
    def __init__(self, func):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self._serve(func, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _serve(self, func, r, w):
        while True:
            try:
                n = _read(r, 8)
            except EOFError:
                return
            arg = pickle.loads(_read(r, struct.unpack("<Q", n)[0]))
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGPROF, _busy)
                signal.setitimer(signal.ITIMER_PROF, CPU_SECONDS, 1.0)
                try:
                    try:
                        res = (True, func(arg))
                    except BaseException as e:  # noqa: B902
                        res = (False, "%s: %s" % (type(e).__name__, e))
                    _put(w, res)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, arg):
        _put(self.w, arg)
        return _get(self.r)
