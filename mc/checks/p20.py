"""
P20: rewriting files is all or nothing, wherever it stops.

Every run of the rewriting helper is taken apart in its operations on the
file system (and, for what we see from the outside, in its lines of code).
For every operation, the run is repeated with the process stopped right
before it, stopped half way of it, and with that operation failing in each
of the ways it may fail.
"""
import io
import os
import runpy
import shutil
import stat
import sys
from collections import namedtuple

from .. import core, impl, steps
from ..core import Space, Violation

LEVEL = 'fault_enumeration'
RULE = ('a state is (case, operation number, name of the operation, stop/'
        'torn/which failure) or (case, line event, set of files that are '
        'rewritten); counted as distinct hashes')
ASSUMPTIONS = [
    'every directory is taken for a file system of its own: renaming a file '
    'into another directory does not work',
    'one failure per run: a failing clean-up after a failure is not looked '
    'at',
    'a stopped process leaves on disk what it did so far; reordering of '
    'writes by a power failure is not looked at',
]

Issue = namedtuple('Issue', 'lineno how')
OTHER = (12345, 54321)  # some user and group


# ---- What the rewriting is to be: replace, delete, add, fail

def rewritten(how, line):
    if how == 'upper':
        return line.upper()
    if how == 'same':
        return line
    if how == 'delete':
        return b''
    if how == 'double':
        return line + b'added\n' + line
    if how == 'chunks':
        return b'<' + line + b'>'
    if how == 'big':
        return line + b'x' * 20000 + b'\n'
    raise ValueError(how)


def mutator_class():
    from asterisklint.helper.mutator import FileMutatorBase

    class Mutator(FileMutatorBase):
        def process_issue(self, issue, inline, outfile):
            if issue.how == 'raise':
                raise ValueError('cannot rewrite')
            if issue.how == 'half':
                outfile.write(inline[:2])
                raise ValueError('cannot rewrite')
            if issue.how == 'chunks':
                outfile.write(b'<')
                outfile.write(inline)
                outfile.write(b'>')
                return
            outfile.write(rewritten(issue.how, inline))
    return Mutator


def expected(data, issues):
    """The new content, or None if there is no rewriting it."""
    lines = data.split(b'\n')
    lines = [i + b'\n' for i in lines[:-1]] + [i for i in lines[-1:] if i]
    done = []
    for issue in issues:
        if issue in done:
            continue
        done.append(issue)
        if issue.lineno < len(lines):
            if issue.how in ('raise', 'half'):
                return None
            lines[issue.lineno] = rewritten(
                issue.how, lines[issue.lineno])
    return b''.join(lines)


# ---- Files: (path, data, mode, owner), and links: (path, target)

class Tree(object):
    def __init__(self, root, files, links):
        self.root, self.files, self.links = root, files, links

    def put(self):
        for name in os.listdir(self.root):
            path = os.path.join(self.root, name)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path)
            else:
                os.unlink(path)
        for name, data, mode, owner in self.files:
            path = os.path.join(self.root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(data)
            if owner:
                os.chown(path, *owner)
            os.chmod(path, mode)
        for name, target in self.links:
            path = os.path.join(self.root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            os.symlink(target.replace('ROOT', self.root), path)

    def look(self):
        """{path: (what, ...)}"""
        ret = {}
        todo = [self.root]
        while todo:
            top = todo.pop()
            with os.scandir(top) as entries:
                names = [i.name for i in entries]
            for name in names:
                path = os.path.join(top, name)
                st = os.lstat(path)
                if stat.S_ISDIR(st.st_mode):
                    todo.append(path)
                elif stat.S_ISLNK(st.st_mode):
                    ret[path[len(self.root) + 1:]] = (
                        'link', os.readlink(path))
                else:
                    with io.FileIO(path, 'r') as f:
                        data = f.read()
                    ret[path[len(self.root) + 1:]] = (
                        'file', data, stat.S_IMODE(st.st_mode),
                        st.st_uid, st.st_gid)
        return ret




class Case(object):
    """
    The files, what is to come of them, and how to run it.
    """
    def __init__(self, root, files, links, new, run):
        self.tree = Tree(root, files, links)
        self.tree.put()
        self.old = self.tree.look()
        # {path: new content}; nothing in here for what stays.
        self.new = {}
        for path, data in new.items():
            if data is not None and data != self.old[path][1]:
                self.new[path] = ('file', data) + self.old[path][2:]
        self.possible = all(i is not None for i in new.values())
        self.run = run

    def judge(self, key, what, extra_ok, final=None):
        """
        Look at the files. They are as they were, or as they should be.
        """
        now = self.tree.look()
        done = []
        for path, was in self.old.items():
            if path not in now:
                raise Violation(
                    '{}: {} is gone'.format(what, path), was, None, key)
            if now[path] == was:
                continue
            if path in self.new and now[path] == self.new[path]:
                done.append(path)
                continue
            raise Violation(
                '{}: {} is neither old nor new'.format(what, path),
                (was, self.new.get(path)), now[path], key)
        if not extra_ok:
            extra = sorted(i for i in now if i not in self.old)
            if extra:
                raise Violation(
                    '{}: there are files left'.format(what), [], extra, key)
        if final is not None and sorted(done) != sorted(final):
            raise Violation(
                '{}: the wrong files are rewritten'.format(what),
                sorted(final), sorted(done), key)
        return tuple(sorted(done))

    def perform(self, control, trace=None):
        """
        Returns None, or what was raised.
        """
        cwd = os.getcwd()
        os.chdir(self.tree.root)
        stdin, sys.stdin = sys.stdin, io.StringIO('')
        old = sys.gettrace()
        try:
            try:
                with steps.Stepped(control):
                    if trace:
                        sys.settrace(trace)
                    self.run(control)
            finally:
                sys.settrace(old)
                control.on = False
                sys.stdin = stdin
                os.chdir(cwd)
        except BaseException as e:
            if isinstance(e, (core.Hang, Violation, MemoryError)):
                raise
            return e
        return None

    def stopped(self, control):
        """In a process of its own. Returns whether it was stopped."""
        pid = os.fork()
        if pid == 0:
            try:
                self.perform(control)
            finally:
                os._exit(98)
        try:
            _, status = os.waitpid(pid, 0)
        except BaseException:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            raise
        return os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99


def explore(case, st, id_, nominal_error=None, answer=True, traced=True,
            forked=False, limit=None):
    """
    All there is to do to a case. Returns (number of operations, outcome).
    """
    def perform(control, trace=None):
        if not forked:
            return case.perform(control, trace)

        # Things are left behind, do it in a child.
        def fn():
            e = case.perform(control, trace)
            return control.log, (None if e is None else repr(e))
        control.log[:], e = impl.in_child(fn)
        return e

    key = repr(id_)
    want_new = list(case.new) if answer else []

    # What happens, as seen from the outside, at every step.
    def observe(name):
        done = case.judge(key, 'before ' + name, True)
        st.step((id_, 'seen', done))

    control = steps.Control(case.tree.root, observe=observe)
    case.tree.put()
    error = perform(control)
    log = list(control.log)
    if case.possible or not answer:
        if (error is not None) != bool(nominal_error):
            raise Violation('it does not work', nominal_error, error, key)
        case.judge(key, 'afterwards', False, want_new)
    else:
        if error is None:
            raise Violation('no failure is reported', 'error', None, key)
        case.judge(key, 'afterwards', False)

    # The same, before every line of code.
    if traced:
        control = steps.Control(case.tree.root)
        lines = [0]

        def tracer(frame, event, arg):
            was, control.on = control.on, False
            try:
                if event == 'line':
                    lines[0] += 1
                    done = case.judge(key, 'at {}:{}'.format(
                        frame.f_code.co_name, frame.f_lineno), True)
                    st.step((id_, frame.f_code.co_name, frame.f_lineno,
                             done))
            finally:
                control.on = was
            return tracer

        case.tree.put()
        perform(control, tracer)
        case.judge(key, 'afterwards', False)

    # Every operation.
    points = range(len(log))
    if limit:
        points = [i for i in points if log[i] not in ('print', 'stat')
                  or i % limit == 0]
    for k in points:
        name = log[k]
        for mode in ('stop', 'torn'):
            if mode == 'torn' and name != 'write':
                continue
            case.tree.put()
            control = steps.Control(case.tree.root, mode, k)
            if not case.stopped(control):
                raise Violation('it is not deterministic: no {} to stop at'
                                .format(k), name, None, key)
            done = case.judge(key, '{} at {} ({})'.format(mode, k, name),
                              True)
            st.step((id_, k, name, mode, done))
        for exc in steps.failures(name):
            for short in ((False, True) if name == 'write' else (False,)):
                case.tree.put()
                control = steps.Control(case.tree.root, exc, k, short)
                error = perform(control)
                what = '{!r} at {} ({}{})'.format(
                    exc, k, name, ', half' if short else '')
                if (error is None and case.possible and answer and
                        not forked):
                    done = case.judge(key, what, False, want_new)
                else:
                    # The clean-up itself may fail.
                    done = case.judge(key, what, name in (
                        'unlink', 'remove'))
                st.step((id_, k, name, repr(exc), short, done))
    outcome = (len(log), len(want_new), case.possible)
    st.outcome((id_, outcome), bool(want_new))


# ---- The helper itself

DATA = {
    'empty': b'',
    'one': b'one\n',
    'short': b'one',
    'three': b'one\ntwo\nthree\n',
    'unended': b'one\ntwo\nthree',
    'dos': b'one\r\ntwo\r\nthree\r\n',
    'cr': b'one\rtwo\rthree\n\r\n',
    'blank': b'\n\n\n',
    'bin': bytes(range(256)) + b'\n\xff\xfe\n\0\n',
    'big': b'a' * 9000 + b'\n' + b'b' * 9000 + b'\n' + b'c' * 9000 + b'\n',
}
ISSUES = {
    'none': (),
    'first': ((0, 'upper'),),
    'last': ((2, 'upper'),),
    'all': ((0, 'upper'), (1, 'delete'), (2, 'double')),
    'backwards': ((2, 'chunks'), (0, 'upper')),
    'same': ((0, 'same'), (1, 'same')),
    'two': ((1, 'chunks'), (1, 'upper')),
    'twice': ((0, 'chunks'), (0, 'chunks')),
    'beyond': ((0, 'upper'), (7, 'upper')),
    'clear': ((0, 'delete'), (1, 'delete'), (2, 'delete')),
    'grow': ((1, 'big'), (2, 'upper')),
    'raise': ((0, 'upper'), (1, 'raise')),
    'half': ((2, 'half'),),
}
MODES = [(0o644, None), (0o600, None), (0o640, OTHER), (0o400, OTHER),
         (0o755, None), (0o4711, OTHER), (0o666, (0, 54321)),
         (0o2664, (12345, 0)), (0o600, OTHER), (0, None)]
# name: (paths of the files, links, names by which they are known)
PLACES = {
    'here': (('a.conf',), (), ('a.conf',)),
    'abs': (('a.conf',), (), ('ROOT/a.conf',)),
    'sub': (('d/a.conf',), (), ('d/a.conf',)),
    'dots': (('d/a.conf',), (), ('d/../d/./a.conf',)),
    'link': (('r.conf',), (('a.conf', 'r.conf'),), ('a.conf',)),
    'linkdir': (('e/r.conf',), (('d/a.conf', '../e/r.conf'),),
                ('d/a.conf',)),
    'linkabs': (('e/r.conf',), (('d/a.conf', 'ROOT/e/r.conf'),),
                ('d/a.conf',)),
    'chain': (('e/r.conf',), (('d/a.conf', '../f/b.conf'),
                              ('f/b.conf', '../e/r.conf')), ('d/a.conf',)),
    'dirlink': (('e/r.conf',), (('d', 'e'),), ('d/r.conf',)),
    'two': (('a.conf', 'b.conf'), (), ('a.conf', 'b.conf')),
    'twodirs': (('d/a.conf', 'e/a.conf'), (), ('d/a.conf', 'e/a.conf')),
    'twolinks': (('d/a.conf', 'e/a.conf'),
                 (('b.conf', 'e/a.conf'), ('a.conf', 'd/a.conf')),
                 ('a.conf', 'b.conf')),
    # One file with more names.
    'same': (('a.conf',), (), ('a.conf', './a.conf')),
    'samelink': (('d/a.conf',), (('b.conf', 'd/a.conf'), ('e', 'd')),
                 ('b.conf', 'd/a.conf', 'e/a.conf')),
    'other': (('a.conf', 'b.conf', 'c.conf~', 'd/a.conf', '.a.conf'), (),
              ('a.conf',)),
}


class CrashSpace(Space):
    hang = 120

    def __init__(self, name, bound, items):
        self.name, self.bound, self._items = name, bound, items

    def items(self):
        return self._items()

    def setup_worker(self):
        self.scratch = impl.Scratch()
        self.scratch.setup()
        self.root = os.path.realpath(self.scratch.path)
        self.class_ = mutator_class()
        import getpass  # noqa: F401
        import tempfile
        tempfile._get_candidate_names()
        os.umask(0o022)

    def teardown_worker(self):
        self.scratch.teardown()

    def check(self, item, st):
        data, issues, mode, place, answer = item
        paths, links, names = PLACES[place]
        mode, owner = MODES[mode]
        many = {}
        new = {}
        together = {}
        for n, name in enumerate(names):
            name = name.replace('ROOT', self.root)
            # The second file is to be rewritten even if the first is not.
            mine = tuple(Issue(*i) for i in ISSUES[issues if not n
                                                   else 'first'])
            many[name] = list(mine)
            together.setdefault(paths[min(n, len(paths) - 1)], []).extend(
                mine)
        for path, mine in together.items():
            new[path] = expected(DATA[data], mine)

        class_ = self.class_

        def run(control):
            if answer is None:
                class_(many).process()
            else:
                sys.stdin = io.StringIO(answer)
                class_(many).request_permission_and_process()

        case = Case(self.root, [(i, DATA[data], mode, owner)
                                for i in paths], links, new, run)
        explore(case, st, item, answer=answer in (None, 'y\n'),
                nominal_error=(answer == ''))


# ---- Missing files

class MissingSpace(CrashSpace):
    def check(self, item, st):
        kind, = item
        files = [('a.conf', DATA['three'], 0o644, None)]
        links = ()
        issues = [Issue(0, 'upper')]
        many = {'a.conf': issues}
        if kind == 'missing':
            many['b.conf'] = issues
        elif kind == 'dangling':
            links = (('b.conf', 'nowhere'),)
            many['b.conf'] = issues
        elif kind == 'nodir':
            many['d/b.conf'] = issues
        elif kind == 'directory':
            files.append(('b.conf/x', b'', 0o644, None))
            many['b.conf'] = issues
        elif kind == 'loop':
            links = (('b.conf', 'c.conf'), ('c.conf', 'b.conf'))
            many['b.conf'] = issues
        class_ = self.class_
        case = Case(self.root, files, links, {'a.conf': expected(
            DATA['three'], issues)}, lambda c: class_(many).process())
        case.possible = False   # it does not work
        explore(case, st, item)


# ---- The scripts that use it

GENERAL = b'[general]\n\n[globals]\n\n[d]\n'
SCRIPTS = {
    'pattern': (
        'make_patterns_canonical.py',
        GENERAL + b'exten => _9[1-9]X.,1,NoOp(_9[1-9]X.)\n'
        b'exten => 2,1,NoOp()\n same => n,Hangup()\n#include "b.conf"\n',
        GENERAL + b'exten => _9ZX.,1,NoOp(_9[1-9]X.)\n'
        b'exten => 2,1,NoOp()\n same => n,Hangup()\n#include "b.conf"\n',
        b'[e]\nexten => _[0-9]!,1,NoOp()\r\n',
        b'[e]\nexten => _X!,1,NoOp()\r\n'),
    'convert': (
        'convert_dp_104_to_1100.py',
        GENERAL + b'exten => s,1,ExecIf($[1],NoOp,a)\n same => n,Hangup()\n'
        b'#include "b.conf"\n',
        GENERAL + b'exten => s,1,ExecIf($[1]?NoOp(a))\n'
        b' same => n,Hangup()\n#include "b.conf"\n',
        b'[e]\nexten => s,1,ExecIf(1,Goto,x,1)',
        b'[e]\nexten => s,1,ExecIf(1?Goto(x,1))'),
}


class ScriptSpace(CrashSpace):
    def setup_worker(self):
        super().setup_worker()
        impl.preload()
        # Load all of it in the parent.
        from asterisklint import FileDialplanParser  # noqa: F401
        import asterisklint.helper.mutator  # noqa: F401
        import asterisklint.app.base  # noqa: F401
        import asterisklint.pattern  # noqa: F401
        impl.dialplan(SCRIPTS['pattern'][1].replace(b'#include', b';'))

    def check(self, item, st):
        name, answer, link = item
        script, a_old, a_new, b_old, b_new = SCRIPTS[name]
        script = os.path.join(core.REPO, 'contrib', script)

        def run(control):
            sys.stdin = io.StringIO(answer)
            sys.argv = [script, 'a.conf']
            runpy.run_path(script, run_name='__main__')

        b = 'd/b.conf' if link else 'b.conf'
        case = Case(
            self.root,
            [('a.conf', a_old, 0o640, OTHER), (b, b_old, 0o600, None)],
            [('b.conf', 'd/b.conf')] if link else [],
            {'a.conf': a_new, b: b_new}, run)
        case.tree.put()
        if answer != 'y\n':
            explore(case, st, item, answer=False, traced=False, forked=True,
                    limit=4, nominal_error=(answer == ''))
            return
        explore(case, st, item, traced=False, forked=True, limit=4)


def spaces(tier):
    quick = tier == 'quick'

    def contents():
        for data in DATA:
            for issues in ISSUES:
                if quick and data == 'big' and issues not in (
                        'all', 'grow', 'raise'):
                    continue
                yield (data, issues, 0, 'here', None)

    def surroundings():
        for place in PLACES:
            for mode in range(len(MODES)):
                if (quick and place not in ('here', 'linkdir', 'two') and
                        mode not in (0, 2, 5)):
                    continue
                for issues in (('all',) if quick else (
                        'all', 'raise', 'clear', 'grow', 'none')):
                    yield ('three', issues, mode, place, None)
            yield ('unended', 'raise', 0, place, None)
            for answer in ('y\n', 'n\n', '', '\n', 'ny\n'):
                yield ('three', 'backwards', 2, place, answer)

    def missing():
        for kind in ('missing', 'dangling', 'nodir', 'directory', 'loop'):
            yield (kind,)

    def scripts():
        for name in SCRIPTS:
            for answer in ('y\n', 'n\n', ''):
                for link in ((False, True) if answer == 'y\n' else (True,)):
                    yield (name, answer, link)

    def everything():
        for data in DATA:
            for issues in ISSUES:
                for place in ('linkdir', 'two', 'other'):
                    for mode in (2, 5):
                        yield (data, issues, mode, place, None)

    ret = [
        CrashSpace(
            'contents', '{} file contents x {} sets of issues x every '
            'operation stopped, torn and failing'.format(
                len(DATA), len(ISSUES)), contents),
        CrashSpace(
            'surroundings', '{} ways of permissions and owners x {} layouts '
            'of files and links (and answers to the question) x every '
            'operation stopped, torn and failing'.format(
                len(MODES), len(PLACES)), surroundings),
        MissingSpace(
            'missing', 'files that cannot be read, with one that can x '
            'every operation stopped, torn and failing', missing),
        ScriptSpace(
            'scripts', 'the scripts in contrib, with two files x answers x '
            'every operation stopped, torn and failing', scripts),
    ]
    if not quick:
        ret.append(CrashSpace(
            'combinations', 'contents x issues x layouts x permissions x '
            'every operation stopped, torn and failing', everything))
    return ret
