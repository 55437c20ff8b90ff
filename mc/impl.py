"""
The only place where the code under test is driven from. It uses the
interfaces that the commands, the web service and the test suite use.
"""
import io
import os
import sys

from . import core

if core.REPO not in sys.path:
    sys.path.insert(1, core.REPO)

from asterisklint import (  # noqa: E402
    FileConfigParser, FileDialplanParser, FileFuncOdbcParser)
from asterisklint.file import FileReader  # noqa: E402
from asterisklint.defines import MessageDefManager  # noqa: E402
from asterisklint.where import Where  # noqa: E402

MessageDefManager.muted = True
HERE = Where('test.conf', 1, b'line')


class File(io.BytesIO):
    def __init__(self, name, data, log=None):
        super().__init__(data)
        self.name = name
        self._log = log

    def close(self):
        if self._log is not None and not self.closed:
            self._log.append(self.name)
        super().close()


def opener_for(files, opened=None, closed=None):
    def opener(filename):
        try:
            data = files[filename]
        except KeyError:
            raise FileNotFoundError(filename)
        if opened is not None:
            opened.append(filename)
        return File(filename, data, closed)
    return opener


_since_reset = [0]
_version = [None]


def reset():
    """
    Forget the messages; and every now and then the singletons, lest the
    list of seen variables eats all memory.
    """
    MessageDefManager.reset()
    _since_reset[0] += 1
    if _since_reset[0] >= 3000:
        forget()


def forget():
    _since_reset[0] = 0
    try:
        from asterisklint.cls import Singleton
        Singleton._instances.clear()
    except Exception:
        pass
    if _version[0]:
        from asterisklint.version import AsteriskVersion
        AsteriskVersion(_version[0])


def forget_variables():
    """
    Forget the variables that were seen. The applications and functions may
    stay.
    """
    try:
        from asterisklint.cls import Singleton
        for class_ in list(Singleton._instances):
            if class_.__name__ == 'VarLoader':
                del Singleton._instances[class_]
    except Exception:
        pass


def set_version(version):
    """
    From here on in this process, this is the Asterisk version.
    """
    _version[0] = version
    forget()


def messages(text=False):
    """
    Sorted list of (filename, lineno, id[, text]).
    """
    ret = []
    for id_, msgs in MessageDefManager.raised.items():
        for msg in msgs:
            if text:
                ret.append((msg.where.filename, msg.where.lineno, id_,
                            msg.message.format(**msg.fmtkwargs)))
            else:
                ret.append((msg.where.filename, msg.where.lineno, id_))
    ret.sort()
    return ret


def line_ids(ignore=()):
    """
    Sorted list of (lineno, id) for single file documents.
    """
    ret = []
    for id_, msgs in MessageDefManager.raised.items():
        if id_ in ignore:
            continue
        for msg in msgs:
            ret.append((msg.where.lineno, id_))
    ret.sort()
    return ret


def load(class_, files, main='a.conf', opener=None):
    parser = class_(opener=opener or opener_for(files))
    parser.include(main)
    return parser


def dialplan(data, main='a.conf', walk=True, opener=None):
    """
    Load a dialplan, like dialplan-check. Returns the Dialplan.
    """
    reset()
    files = data if isinstance(data, dict) else {main: data}
    plan = next(iter(load(FileDialplanParser, files, main, opener)))
    if walk:
        plan.walk_jump_destinations()
    return plan


# ---- The commands

_command_cache = {}


def command(name):
    """The main of the command, as run by the asterisklint script."""
    if name not in _command_cache:
        from asterisklint.main import load_command
        path = os.path.join(
            core.REPO, 'asterisklint', 'commands', name + '.py')
        _command_cache[name] = load_command(name, path)
    return _command_cache[name].main


class Capture(object):
    """Capture stdout and stderr."""
    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.out, self.err = (
            io.StringIO(), io.StringIO())
        return self

    def __exit__(self, *args):
        sys.stdout, sys.stderr = self.old
        self.stdout, self.stderr = self.out.getvalue(), self.err.getvalue()


def run_command(name, *args):
    """
    Run a command in this process. Returns (status, stdout, stderr); like
    sys.exit() would do.
    """
    with Capture() as cap:
        try:
            status = command(name)(list(args), {})
        except SystemExit as e:
            status = e.code
    if status is None:
        status = 0
    return status, cap.stdout, cap.stderr


def run_loud(name, *args):
    """The same, with messages printed."""
    MessageDefManager.muted = False
    try:
        return run_command(name, *args)
    finally:
        MessageDefManager.muted = True


class ChildDied(Exception):
    pass


def in_child(fn, *args):
    """
    Run this in a child of our own, so there is nothing it remembers and
    nothing it leaves behind.
    """
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                ret = ('ok', fn(*args))
            except BaseException as e:
                import traceback
                ret = ('error', repr(e) + '\n' +
                       traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(ret, 4))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if not data:
        raise ChildDied('the process dies (status {})'.format(status))
    kind, ret = pickle.loads(data)
    if kind == 'error':
        raise ChildDied(ret)
    return ret


class Scratch(object):
    """
    A directory of our own, to be used with "with", or as setup and
    teardown of a space.
    """
    def __init__(self):
        self.path = None

    def setup(self):
        import tempfile
        self.path = tempfile.mkdtemp(prefix='alint-mc-')
        return self.path

    def teardown(self):
        import shutil
        if self.path and os.path.basename(self.path).startswith('alint-mc-'):
            shutil.rmtree(self.path, ignore_errors=True)
        self.path = None

    def __enter__(self):
        self.setup()
        return self

    def __exit__(self, *args):
        self.teardown()

    def join(self, *args):
        return os.path.join(self.path, *args)

    def write(self, name, data):
        path = os.path.join(self.path, name)
        with open(path, 'wb') as f:
            f.write(data)
        return path


def preload():
    """
    Have the applications and functions loaded once, before there are
    children that are to check a single dialplan each.
    """
    from asterisklint.application import AppLoader
    from asterisklint.varfun import FuncLoader
    AppLoader()
    FuncLoader()


class Forked(object):
    """
    Base for spaces that run commands on files, in a process of its own
    each. It has a scratch directory.
    """
    commands = ()
    load = True

    def setup_worker(self):
        self.scratch = Scratch()
        self.scratch.setup()
        self.cwd = os.getcwd()
        os.chdir(self.scratch.path)
        for name in self.commands:
            command(name)
        if self.load:
            preload()

    def teardown_worker(self):
        os.chdir(self.cwd)
        self.scratch.teardown()

    def put(self, files):
        """
        Have exactly these files in the scratch directory.
        """
        import shutil
        for name in os.listdir(self.scratch.path):
            path = self.scratch.join(name)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path)
            else:
                os.unlink(path)
        for name, data in files.items():
            if os.path.dirname(name):
                os.makedirs(self.scratch.join(os.path.dirname(name)),
                            exist_ok=True)
            self.scratch.write(name, data)

    def run(self, name, *args):
        """(status, stdout, stderr) of a command, in a new process."""
        return in_child(run_loud, name, *args)
