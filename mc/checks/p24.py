"""
P24: which commands there are, and what running them does.
"""
import ast
import itertools
import os
import re
import shutil
import subprocess
import sys

from .. import core, impl
from ..core import Space, Violation, near, sequences

NAME = re.compile('[a-z0-9][a-z0-9_-]*')    # and nothing else
BUILTIN = os.path.join(core.REPO, 'asterisklint', 'commands')

# ---- What may be in a commands directory

OK = '''"""
Does {0}  things,
and more of {0}.
"""


def main(args, envs):
    print('{0}', args, sorted(i for i in envs if i in ('HOME', 'MARK')))
    return {1}
'''
STATES = {
    'none': None,
    'ok': OK,
    'nodoc': 'def main(args, envs):\n    print("{0}", args)\n    return {1}\n',
    'object': '"Object of {0} {x} %s {}"\n\n\nclass Main(object):\n'
              '    def __call__(self, args, envs):\n'
              '        print("{0}", args)\n'
              '        raise SystemExit({1})\n\n\nmain = Main()\n',
    'syntax': '"""Doc of {0}."""\ndef main(:\n',
    'raises': '"""Doc of {0}."""\nraise ValueError("no {x} %d {0}")\n',
    'imports': '"""Doc of {0}."""\nimport no_such_module_{0}\n'
               'main = None\n',
    'exits': '"""Doc of {0}."""\nimport sys\nsys.exit(0)\n',
    'nomain': '"""Doc of {0}."""\nMain = 1\n',
    'empty': '',
    'encoding': '"""Doc \udcff of {0}."""\nmain = print\n',
    'null': '"""Doc\0 of {0}."""\n',
    'asserts': 'assert False\n',
    'directory': 'dir',
    'dangling': 'link',
    'relative': '"""Doc of {0}."""\nfrom . import nothing\nmain = 1\n',
}
WORKS = ('ok', 'nodoc', 'object')
NOT_THERE = ('none', 'directory', 'dangling')
FEW = ('none', 'ok', 'nodoc', 'syntax', 'raises', 'exits', 'nomain',
       'directory', 'dangling')


def describe(state, mark):
    """What ls says: a description, or None for an error."""
    if state == 'ok':
        return 'Does {0} things, and more of {0}.'.format(mark)
    if state == 'object':
        return 'Object of {} {{x}} %s {{}}'.format(mark)
    if state == 'nodoc':
        return '(help text missing)'
    return None


class CommandSpace(Space):
    """
    There is a home directory, and two more directories in the path.
    """
    hang = 100

    def __init__(self, name, bound, items):
        self.name, self.bound, self._items = name, bound, items

    def items(self):
        return self._items()

    def setup_worker(self):
        self.scratch = impl.Scratch()
        self.scratch.setup()
        self.root = os.path.realpath(self.scratch.path)
        self.cwd = os.getcwd()
        import asterisklint.main  # noqa: F401
        # What is there, according to the source.
        self.builtin = {}
        for name in sorted(os.listdir(BUILTIN)):
            if name.endswith('.py') and NAME.fullmatch(name[:-3]):
                with open(os.path.join(BUILTIN, name), 'rb') as f:
                    doc = ast.get_docstring(ast.parse(f.read()))
                self.builtin[name[:-3]] = ' '.join((doc or '').split())

    def teardown_worker(self):
        os.chdir(self.cwd)
        self.scratch.teardown()

    def clear(self):
        for name in os.listdir(self.root):
            path = os.path.join(self.root, name)
            shutil.rmtree(path)

    def place(self, where, name, state, status=0, mark=None):
        if state == 'none':
            return
        top = os.path.join(self.root, where)
        if where == 'home':
            top = os.path.join(top, '.asterisklint')
        top = os.path.join(top, 'asterisklint', 'commands')
        os.makedirs(top, exist_ok=True)
        path = os.path.join(top, name + '.py')
        if state == 'directory':
            os.makedirs(path)
        elif state == 'dangling':
            os.symlink('nowhere', path)
        else:
            with open(path, 'wb') as f:
                f.write(STATES[state].replace('{0}', mark or where).replace(
                    '{1}', str(status)).encode('utf-8', 'surrogateescape'))

    def dir_of(self, where):
        if where == 'builtin':
            return BUILTIN
        parts = [self.root, where, 'asterisklint', 'commands']
        if where == 'home':
            parts.insert(2, '.asterisklint')
        return os.path.join(*parts)

    def run(self, argv, home='home', paths=('one', 'two'), env=None):
        """(status, stdout, stderr), like the script would."""
        def fn():
            from asterisklint.main import main
            os.chdir(self.root)
            sys.dont_write_bytecode = True
            sys.path[:] = [core.REPO] + [
                os.path.join(self.root, i) for i in paths] + [
                i for i in sys.path if i not in (core.REPO, core.VERIF, '')]
            envs = dict(env or {}, PATH='/usr/bin')
            if home is not None:
                envs['HOME'] = os.path.join(self.root, home)
            sys.argv = ['asterisklint'] + list(argv)
            with impl.Capture() as cap:
                try:
                    status = main(list(argv), envs)
                    # Like sys.exit().
                    if status is None:
                        status = 0
                    elif not isinstance(status, int):
                        sys.stderr.write(str(status))
                        status = 1
                except SystemExit as e:
                    status = e.code
                    if status is None:
                        status = 0
                    elif not isinstance(status, int):
                        status = 1
                except Exception as e:
                    return 'traceback', '', repr(e)
            return status & 255, cap.stdout, cap.stderr
        return impl.in_child(fn)

    def listing(self, out):
        """[(directory, name, description)] of what ls says."""
        ret = []
        where = None
        for line in out.split('\n'):
            m = re.match(r'^(\S.*):$', line)
            if m:
                where = m.group(1)
                continue
            m = re.match(r'^  (\S+) +(.*)$', line)
            if m and not line.startswith(' ' * 4):
                ret.append([where, m.group(1), m.group(2)])
            elif line.startswith(' ' * 4) and ret:
                ret[-1][2] += ' ' + line.strip()
        return [tuple(i) for i in ret]

    def check_ls(self, found, out, key, wanted):
        """wanted: {(directory, name): description or None for an error}"""
        status, out, err = out
        if status != 0 or err:
            raise Violation('ls fails', 0, (status, out, err), key)
        got = [i for i in self.listing(out) if i[0] != 'builtin']
        names = [i[:2] for i in got]
        if sorted(names) != sorted(wanted):
            raise Violation('ls lists the wrong commands', sorted(wanted),
                            sorted(names), key)
        for where, name, desc in got:
            want = wanted[where, name]
            desc = ' '.join(desc.split())
            if want is None:
                if not desc.startswith('(error'):
                    raise Violation('ls has no error for ' + name, '(error',
                                    desc, key)
            elif desc != want:
                raise Violation('ls describes {} wrongly'.format(name),
                                want, desc, key)

    def wanted_of(self, dirs):
        """
        dirs: [(where, {name: state})], the first wins.
        """
        ret = {}
        used = set()
        for where, commands in dirs:
            for name, state in commands.items():
                if (name in used or state in NOT_THERE or
                        not NAME.fullmatch(name)):
                    continue
                used.add(name)
                if where == 'builtin':
                    desc = self.builtin[name]
                else:
                    desc = describe(state, where)
                ret[self.dir_of(where), name] = desc
        return ret

    def check_run(self, key, name, rest, first, status, out):
        """first: (where, state) of the one that is to run, or None."""
        got, stdout, stderr = out
        if got == 'traceback' or 'Traceback' in stderr:
            raise Violation('{} gives a traceback'.format(name), None, out,
                            key)
        if first and first[1] in WORKS:
            if got != status or not stdout.startswith(
                    '{} {!r}'.format(first[0], list(rest))) or stderr:
                raise Violation(
                    '{} does not run {} with {}'.format(
                        name, first[0], rest), status, out, key)
        elif got == 0 or not stderr.strip() or stdout:
            raise Violation(
                '{} should give a message and fail'.format(name),
                1, out, key)


class ConfigSpace(CommandSpace):
    """Items: (name, state in home, one, two, which home)"""
    def check(self, item, st):
        name, states, home = item
        places = ('home', 'one', 'two')
        statuses = dict(zip(places, (3, 0, 1)))
        self.clear()
        for where, state in zip(places, states):
            self.place(where, name, state, statuses[where])
        dirs = [(where, {name: state})
                for where, state in zip(places, states)]
        if home != 'home':
            dirs = dirs[1:]
        dirs.insert(1 if home == 'home' else 0,
                    ('builtin', dict((i, 'builtin') for i in self.builtin)))
        key = repr(item)
        self.check_ls(item, self.run(['ls'], home), key, self.wanted_of(dirs))
        first = None
        for where, commands in dirs:
            if commands.get(name, 'none') not in NOT_THERE:
                first = where, commands[name]
                break
        if not first or first[0] != 'builtin':
            status = statuses[first[0]] if first else None
            for rest in ((), ('-v', name, 'x')):
                out = self.run((name,) + rest, home)
                self.check_run(key, name, rest, first, status, out)
                st.step((first, status, out[0]))
        else:
            # It is the one that we know.
            out = self.run((name, '--help'), home)
            if out[0] != 0 or not out[1].startswith('usage: '):
                raise Violation('not the builtin command', 0, out, key)
        st.outcome((first, states, home), True)


class NameSpace(CommandSpace):
    """Items: names of commands, all of which are in a directory."""
    def setup_worker(self):
        super().setup_worker()
        self.there = {}
        for name in self.names:
            if '/' in name or '\0' in name or not name:
                continue
            self.place('one', name, 'ok', 5)
            self.there[name] = 'ok'

    def check(self, item, st):
        key = repr(item)
        if item is None:
            dirs = [('builtin', dict((i, 'builtin') for i in self.builtin)),
                    ('one', self.there)]
            self.check_ls(item, self.run(['ls'], None), key,
                          self.wanted_of(dirs))
            st.outcome(item, True)
            return
        for rest in ((), ('a', '--x')):
            out = self.run((item,) + rest, None)
            if item.startswith('-'):
                if out[0] == 'traceback':
                    raise Violation('a traceback', None, out, key)
                continue
            good = item in self.there and NAME.fullmatch(item)
            self.check_run(key, item, rest, ('one', 'ok') if good else None,
                           5, out)
            st.step((item, out[0]))
        st.outcome((item, out[0]), not good if not item.startswith('-')
                   else False)


class ArgsSpace(CommandSpace):
    """Items: argument lists."""
    def setup_worker(self):
        super().setup_worker()
        self.place('home', 'foo', 'ok', 0)
        self.place('one', 'bar', 'object', 7)
        self.place('one', 'foo', 'ok', 9)
        self.place('two', 'none', 'ok', 'None')
        self.place('two', 'text', 'ok', '"some text"')
        self.place('two', 'true', 'ok', 'True')
        self.place('two', 'large', 'ok', '200')

    def check(self, item, st):
        out = self.run(item, env={'MARK': '1'})
        key = repr(item)
        if out[0] == 'traceback':
            raise Violation('{!r} gives a traceback'.format(item), None, out,
                            key)
        command = None
        rest = list(item)
        for n, arg in enumerate(item):
            if not arg.startswith('-'):
                command = arg
                del rest[n]
                break
        run = {'foo': ('home', 0), 'bar': ('one', 7), 'none': ('two', 0),
               'text': ('two', 1), 'true': ('two', 1), 'large': ('two', 200)}
        if command is None:
            if '-V' not in item and '-h' not in item and out[0] == 0:
                raise Violation('there is no command', 2, out, key)
            want = out[0]
        elif command == 'ls':
            want = 0
        elif command in run:
            where, want = run[command]
            line = '{} {!r}'.format(where, rest)
            if command != 'bar':
                line += " ['HOME', 'MARK']"
            if out[1] != line + '\n':
                raise Violation('{!r} does not run it'.format(item), line,
                                out, key)
        else:
            want = 1
            if out[0] == 0 or not out[2] or out[1]:
                raise Violation('{!r} should fail'.format(item), 1, out, key)
            want = out[0]
        if out[0] != want:
            raise Violation('{!r} has the wrong exit status'.format(item),
                            want, out, key)
        st.step((command, out[0], len(rest)))
        st.outcome((command, out[0], len(rest)), out[0] != 0)


class ScriptSpace(CommandSpace):
    """The real script, in a real process."""
    def check(self, item, st):
        states, command, home = item
        self.clear()
        for where, state, status in zip(('home', 'one'), states, (3, 5)):
            self.place(where, command, state, status)
        env = {'PATH': '/usr/bin:/bin', 'PYTHONHASHSEED': '0',
               'PYTHONDONTWRITEBYTECODE': '1',
               'PYTHONPATH': os.path.join(self.root, 'one')}
        if home is not None:
            env['HOME'] = os.path.join(self.root, home)
        key = repr(item)
        os.chdir('/')
        script = os.path.join(core.REPO, 'scripts', 'asterisklint')

        def run(*argv):
            proc = subprocess.run(
                [sys.executable, script] + list(argv), env=env, cwd=self.root,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return (proc.returncode, proc.stdout.decode('utf-8'),
                    proc.stderr.decode('utf-8'))

        dirs = [('builtin', dict((i, 'builtin') for i in self.builtin)),
                ('one', {command: states[1]})]
        if home == 'home':
            dirs.insert(0, ('home', {command: states[0]}))
        self.check_ls(item, run('ls'), key, self.wanted_of(dirs))
        first = None
        for where, commands in dirs:
            if commands.get(command, 'none') not in NOT_THERE:
                first = where, commands[command]
                break
        if not first or first[0] != 'builtin':
            out = run(command, 'a', '-b')
            self.check_run(key, command, ('a', '-b'), first, first and {
                'home': 3, 'one': 5}[first[0]], out)
        else:
            out = run(command, '--help')
            if out[0] != 0 or not out[1].startswith('usage: '):
                raise Violation('not the builtin command', 0, out, key)
        st.step((first, out[0]))
        st.outcome((first, out[0]), out[0] != 0)


def spaces(tier):
    quick = tier == 'quick'
    alphabet = ['a', '1', '-', '_', 'A', '.', '/', ' ', '\u00e9', '\n', '*']
    names = [''.join(i) for i in sequences(alphabet, 2 if quick else 3)]
    names += ['aaa', 'a-_1', '1-a', '../a', 'a/../a', '__init__', 'a.py',
              'a.pyc', '~', '$a', 'a' * 300]

    def configs():
        some = FEW if quick else tuple(STATES)
        for states in itertools.product(some, repeat=3):
            if quick and states.count('none') == 0 and states[2] not in (
                    'ok', 'syntax', 'none'):
                continue
            yield 'foo', states, 'home'
        for state in STATES:
            for name in ('foo', 'dialplan-check', 'a', '0', 'x-y_z'):
                for n in range(3):
                    states = ['none'] * 3
                    states[n] = state
                    yield name, tuple(states), 'home'
                    states[(n + 1) % 3] = 'ok'
                    yield name, tuple(states), 'home'
                    yield name, tuple(states), 'elsewhere'
                    yield name, tuple(states), None

    def name_items():
        yield None
        for name in names:
            yield name

    def args():
        some = ['foo', 'bar', 'ls', '-v', '--', '-', 'x', '', '--a=b c',
                '-V', '-h', 'none', 'text', 'true', 'large', '/foo']
        for seq in sequences(some, 3 if not quick else 2):
            yield seq
        for seq in sequences(some[:8], 3 if quick else 4, 3):
            yield seq

    def scripts():
        for states in itertools.product(
                FEW if not quick else ('none', 'ok', 'raises', 'directory'),
                repeat=2):
            for home in ('home', None):
                for command in ('foo', 'dialplan-show'):
                    yield states, command, home

    def near_items():
        for name in ('ls', 'foo-bar', 'a_1', 'dialplan-check'):
            for other in near(name):
                if other != 'a' and not other.startswith('-'):
                    yield other

    near_space = NameSpace(
        'edits', 'all single edits of 4 commands', near_items)
    near_space.names = ['foo-bar', 'a_1']
    name_space = NameSpace(
        'names', 'all names of up to {} of {} characters'.format(
            2 if quick else 3, len(alphabet)), name_items)
    name_space.names = [i for i in names if len(i) < 200]
    return [
        ConfigSpace('directories', '{} states of a command in each of 3 '
                    'directories'.format(len(FEW if quick else STATES)),
                    configs),
        name_space,
        near_space,
        ArgsSpace('arguments', 'all argument lists of up to {} of 8 and 16 '
                  'arguments'.format(3 if quick else 4), args),
        ScriptSpace('script', 'the real script: states of a command in two '
                    'directories', scripts),
    ]
