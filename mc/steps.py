"""
A stepped file system: every operation on files that python code does goes
through a step. A step may be the last one (the process is stopped there), it
may fail, or it may write only half of it.
"""
import builtins
import errno
import io
import os
import sys
import tempfile

# What changes something, or may fail.
OS_NAMES = ('open', 'rename', 'replace', 'unlink', 'remove', 'chmod', 'chown',
            'lchown', 'fchmod', 'fchown', 'stat', 'fstat', 'link', 'symlink',
            'truncate', 'ftruncate', 'write', 'read', 'close', 'fsync',
            'fdatasync', 'sendfile', 'utime', 'mkdir', 'rmdir')
FILE_NAMES = ('write', 'writelines', 'read', 'readline', 'readlines',
              'flush', 'close', 'truncate', 'seek')


class Stopped(BaseException):
    """Stands in for the end of the process, in observers."""


class Control(object):
    """
    mode: None, 'stop' (stop the process), 'torn' (do half of a write and
    stop), or an exception to raise (after half of it, if short).
    """
    def __init__(self, root, mode=None, at=None, short=False, observe=None):
        self.root, self.mode, self.at = root, mode, at
        self.short = short
        self.observe = observe
        self.log = []
        self.on = True

    def step(self, name, half=None):
        if not self.on:
            return
        n = len(self.log)
        self.log.append(name)
        if self.observe:
            self.on = False
            try:
                self.observe(name)
            finally:
                self.on = True
        if self.at == n:
            if half and (self.mode == 'torn' or self.short):
                half()
            if self.mode in ('stop', 'torn'):
                os._exit(99)
            if self.mode:
                raise self.mode


class File(object):
    """
    A file of which the operations are steps.
    """
    def __init__(self, f, control):
        self.__dict__['_f'] = f
        self.__dict__['_c'] = control

    def __getattr__(self, name):
        attr = getattr(self._f, name)
        if name not in FILE_NAMES:
            return attr

        def call(*args):
            half = None
            if name == 'write':
                def half():
                    self._f.write(args[0][:len(args[0]) // 2])
                    self._f.flush()
            try:
                self._c.step(name, half)
            except BaseException:
                if name == 'close':
                    self._f.close()
                raise
            return attr(*args)
        return call

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __iter__(self):
        return self

    def __next__(self):
        self._c.step('next')
        return next(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def same_device(src, dst):
    """
    Every directory may be (on) another file system.
    """
    if (os.path.realpath(os.path.dirname(os.path.abspath(src))) !=
            os.path.realpath(os.path.dirname(os.path.abspath(dst)))):
        raise OSError(errno.EXDEV, 'Invalid cross-device link', src)


class Stepped(object):
    """
    with Stepped(control): ...
    """
    def __init__(self, control):
        self.control = control

    def __enter__(self):
        c = self.control
        self.old = []

        def patch(obj, name, value):
            self.old.append((obj, name, getattr(obj, name)))
            setattr(obj, name, value)

        def wrap(name, orig):
            def call(*args, **kwargs):
                c.step(name)
                if c.on and name in ('rename', 'replace', 'link'):
                    same_device(*args[0:2])
                return orig(*args, **kwargs)
            return call

        for name in OS_NAMES:
            if hasattr(os, name):
                patch(os, name, wrap(name, getattr(os, name)))

        orig_open = io.open

        def stepped_open(file, *args, **kwargs):
            c.step('open')
            # What happens below this is not a step of its own.
            was, c.on = c.on, False
            try:
                f = orig_open(file, *args, **kwargs)
            finally:
                c.on = was
            return File(f, c)
        patch(builtins, 'open', stepped_open)
        patch(io, 'open', stepped_open)
        if getattr(tempfile, '_io', None) is not None:
            patch(tempfile._io, 'open', stepped_open)

        class Out(object):
            def write(self, text):
                c.step('print')

            def flush(self):
                pass
        patch(sys, 'stdout', Out())
        return c

    def __exit__(self, *args):
        for obj, name, value in reversed(self.old):
            setattr(obj, name, value)


def failures(name):
    """What may be raised by this kind of operation."""
    ret = [OSError(errno.EIO, 'Input/output error')]
    if name in ('write', 'open', 'flush', 'close', 'rename', 'replace'):
        ret.append(OSError(errno.ENOSPC, 'No space left on device'))
    if name in ('open', 'chown', 'chmod', 'rename', 'replace', 'unlink',
                'stat', 'fchown', 'fchmod', 'lchown'):
        ret.append(PermissionError(errno.EPERM, 'Operation not permitted'))
    ret.append(KeyboardInterrupt())
    return ret
