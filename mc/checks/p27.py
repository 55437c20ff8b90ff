"""
P27: which files the commands read, what they do if they can't, and that
they leave everything alone.
"""
import os
import re
import stat

from .. import impl
from ..core import Space, Violation
from ..stubs import install_editdistance

ASSUMPTIONS = [
    'the files are marked: every file has findings of its own',
    'editdistance is not installed: the stand-in of P23 is used',
    'a read error is one of /proc/self/mem; a file without permissions is '
    'looked at by another user',
]

G = '[general]\n\n[globals]\n\n'
COMMANDS = ('dialplan-check', 'dialplan-show', 'modules-show', 'ident-scan',
            'func_odbc-check')
WITH_ODBC = ('dialplan-check', 'modules-show')
NUMBERS = ('One', 'Two', 'Six')
RE_MSG = re.compile(r'^(.*?):(\d+) ([EWH]_[A-Z0-9_]+): (.*)$')


def main_file(n):
    """A dialplan that is like no other."""
    return (G + '[ctx%s]\n' % n + 'exten => s,1,Nope%s(${vAR%s}${VAr%s})\n' % (
        n, n, n) + ''.join(' same => n,NoOp(${ODBC_%s(1)})\n' % i.upper()
                           for i in NUMBERS)).encode()


def odbc_file(n):
    return ('[%s]\nreadsql=SELECT %s\nbad%s=1\n' % (
        n.upper(), n, n)).encode()


def markers(command, n, odbc):
    """What tells that it is this one; and nothing else."""
    if command == 'dialplan-check':
        ret = ['6 E_APP_MISSING Nope' + n] + [
            '%d E_FUNC_MISSING ODBC_%s' % (7 + i, num.upper())
            for i, num in enumerate(NUMBERS) if num != odbc]
        if odbc:
            ret.append('3 E_CONF_KEY_INVALID bad' + odbc)
        return sorted(ret)
    if command == 'func_odbc-check':
        return ['3 E_CONF_KEY_INVALID bad' + n]
    if command == 'dialplan-show':
        return sorted(['Nope' + n, 'ctx' + n, 'VAr' + n, 'vAR' + n] + [
            'ODBC_' + i.upper() for i in NUMBERS])
    if command == 'modules-show':
        return sorted(['Nope' + n] + ['ODBC_' + i.upper() for i in NUMBERS])
    if command == 'ident-scan':
        return sorted(['VAr' + n, 'ctx' + n, 'vAR' + n])


RE_MARK = re.compile(r'(?:Nope|ctx|VAr|vAR|ODBC_|bad)(?:%s)' % '|'.join(
    NUMBERS + tuple(i.upper() for i in NUMBERS)))


def observe(command, out, err):
    """What was seen, and the names of the files."""
    if command in ('dialplan-check', 'func_odbc-check'):
        ret, names = [], []
        for line in err.split('\n'):
            m = RE_MSG.match(line)
            mark = RE_MARK.search(m.group(4)) if m else None
            if mark:
                ret.append('%s %s %s' % (m.group(2), m.group(3),
                                         mark.group(0)))
                names.append((m.group(3) == 'E_CONF_KEY_INVALID',
                              m.group(1)))
        return sorted(ret), sorted(set(names))
    return sorted(set(RE_MARK.findall(out))), None


def snapshot(top):
    """All there is, by name, content, mode and times."""
    ret = {}
    for root, dirs, files in os.walk(top):
        for name in dirs + files + ['']:
            path = os.path.join(root, name)
            s = os.lstat(path)
            data = None
            if stat.S_ISLNK(s.st_mode):
                data = os.readlink(path)
            elif stat.S_ISREG(s.st_mode):
                with open(path, 'rb') as f:
                    data = f.read()
            ret[path] = (data, s.st_mode, s.st_mtime, s.st_uid, s.st_ino,
                         s.st_nlink)
    return ret


BAD = ('missing', 'dir', 'loop', 'dangling', 'broken', 'denied', 'under')


def place(path, data, state):
    """Have a file there, in this state. Which ones are no good?"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if state == 'fine':
        with open(path, 'wb') as f:
            f.write(data)
    elif state == 'link':
        # It is in another directory, with others next to it.
        real = os.path.join(os.path.dirname(path), 'real')
        os.makedirs(real, exist_ok=True)
        for name, other in (('extensions.conf', main_file('Six')),
                            ('func_odbc.conf', odbc_file('Six'))):
            with open(os.path.join(real, name), 'wb') as f:
                f.write(other)
        with open(os.path.join(real, 'f' + os.path.basename(path)[:9]),
                  'wb') as f:
            f.write(data)
        os.symlink(f.name, path)
    elif state == 'dir':
        os.mkdir(path)
    elif state == 'loop':
        os.symlink(os.path.basename(path), path)
    elif state == 'dangling':
        os.symlink('nowhere', path)
    elif state == 'broken':
        # This can be opened, but not be read.
        os.symlink('/proc/self/mem', path)
    elif state == 'denied':
        with open(path, 'wb') as f:
            f.write(data)
        os.chmod(path, 0)


# How the path is given: (name in the top directory, working directory,
# arguments). None is the default.
def forms(default):
    yield 'default', 'w/' + default, 'w', None
    yield 'dot-default', 'w/' + default, 'w', './' + default
    yield 'plain', 'w/' + default, 'w', default
    yield 'other', 'w/x.conf', 'w', 'x.conf'
    yield 'noext', 'w/x', 'w', 'x'
    yield 'sub', 'w/d/x.conf', 'w', 'd/x.conf'
    yield 'sub-default', 'w/d/' + default, 'w', 'd/' + default
    yield 'up', 'v/' + default, 'w', '../v/' + default
    yield 'absolute', 'v/' + default, 'w', '@/v/' + default
    yield 'slashes', 'w/d/x.conf', 'w', './/d///x.conf'
    yield 'dots', 'w/d/x.conf', 'w', 'd/../d/./x.conf'
    yield 'linked', 'v/x.conf', 'w', 'l/x.conf'
    yield 'blank', 'w/a b .conf', 'w', 'a b .conf'
    yield 'percent', 'w/%s{}{0}%.conf', 'w', '%s{}{0}%.conf'
    yield 'unicode', 'w/\u20ac\U0001f600.conf', 'w', '\u20ac\U0001f600.conf'
    yield 'undecodable', 'w/\udcff.conf', 'w', '\udcff.conf'
    yield 'dash', 'w/-v', 'w', '-v'
    yield 'tilde', 'w/~', 'w', '~'
    yield 'dollar', 'w/$HOME', 'w', '$HOME'
    yield 'star', 'w/*', 'w', '*'
    yield 'at', 'w/' + 'a' * 250, 'w', 'a' * 250
    yield 'newline', 'w/a\\nb', 'w', 'a\\nb'


class FilesSpace(impl.Forked, Space):
    hang = 60

    def __init__(self, name, bound, items):
        self.name, self.bound, self._items = name, bound, items

    def setup_worker(self):
        install_editdistance()
        self.commands = COMMANDS
        super().setup_worker()
        os.chmod(self.scratch.path, 0o755)

    def items(self):
        return self._items()

    def check(self, item, st):
        command, form, state, mode, odbc_state = item
        default = ('func_odbc.conf' if command.startswith('func')
                   else 'extensions.conf')
        form, path, cwd, arg = next(
            i for i in forms(default) if i[0] == form)
        self.put({})
        top = self.scratch.path
        make = odbc_file if command.startswith('func') else main_file
        for name in ('w', 'v', 'w/d'):
            os.mkdir(os.path.join(top, name))
        os.symlink('../v', os.path.join(top, 'w/l'))
        # The other ones, that it should not read.
        for one in ('w/', 'v/', 'w/d/', ''):
            if one + default != path:
                place(os.path.join(top, one + default), make('Six'), 'fine')
        full = os.path.join(top, path)
        place(full, make('One'), state)
        if arg is not None:
            arg = arg.replace('@', top)
        args, given = [], arg
        if arg is None:
            given = './' + default
        if state == 'under':
            # Not a directory.
            if arg is None:
                return
            given = arg = arg + '/x'
            place(full, make('One'), 'fine')

        # func_odbc.conf: next to the dialplan, or elsewhere.
        odbc, odbc_given, fails = None, None, state in BAD
        if command in WITH_ODBC:
            near = os.path.join(os.path.dirname(full), 'func_odbc.conf')
            far = os.path.join(top, 'w', 'far.conf')
            where = os.path.join(os.path.dirname(given), 'func_odbc.conf')
            if mode == 'auto':
                place(near, odbc_file('Two'), odbc_state)
                found = odbc_state not in ('missing', 'loop', 'dangling')
                # A file is no directory.
                if state == 'under':
                    found = False
                if found:
                    fails = fails or odbc_state in BAD
                    odbc, odbc_given = 'Two', where
            else:
                if mode == 'same':
                    # The usual name, but not next to the dialplan.
                    far = os.path.join(top, 'w', 'func_odbc.conf')
                if os.path.realpath(near) != os.path.realpath(far):
                    place(near, odbc_file('Six'), 'fine')
                if mode == 'empty':
                    args.append('--func-odbc=')
                elif mode == 'other':
                    place(far, odbc_file('Two'), odbc_state)
                    args += ['--func-odbc', 'far.conf']
                    odbc, odbc_given = 'Two', 'far.conf'
                    fails = fails or odbc_state in BAD
                elif mode == 'same':
                    place(far, odbc_file('Two'), odbc_state)
                    args.append('--func-odbc=func_odbc.conf')
                    odbc, odbc_given = 'Two', 'func_odbc.conf'
                    fails = fails or odbc_state in BAD
                elif mode == 'twice':
                    args += ['--func-odbc', 'far.conf', '--func-odbc=']
                elif mode == 'twice-empty':
                    args += ['--func-odbc=', '--func-odbc', 'far.conf']
                elif mode == 'twice-both':
                    args += ['--func-odbc=', '--func-odbc=']
        if command == 'ident-scan':
            args.append('-v')
        if arg is not None:
            args += ['--', arg] if arg.startswith('-') else [arg]
        if mode == 'two':
            args += [default] * (2 if arg is None else 1)

        before = snapshot(top)

        def fn():
            os.chdir(os.path.join(top, cwd))
            if 'denied' in (state, odbc_state):
                # We're root, so there is nothing that we may not do.
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            try:
                return impl.run_loud(command, *args)
            except Exception as e:
                return 'exception', '', repr(e)
        status, out, err = impl.in_child(fn)
        after = snapshot(top)
        what = '{} {}'.format(command, args)
        if after != before:
            diff = sorted(i for i in set(before) | set(after)
                          if before.get(i) != after.get(i))
            raise Violation(what + ' changes files', [], diff, repr(item))
        seen, names = observe(command, out, err)
        st.step((command, form, state, mode, odbc_state))
        if status == 'exception':
            raise Violation(what + ' ends in an exception', None, err,
                            repr(item))
        if mode == 'two' or mode.startswith('twice'):
            if status != 2 or 'usage:' not in err or seen:
                raise Violation(what + ' is no usage error', 2,
                                (status, err[-300:]), repr(item))
            st.outcome((command, 'usage'), True)
            return
        if fails:
            if type(status) is not int or not status or not err or (
                    'Traceback' in err):
                raise Violation(
                    what + ' cannot read a file, but does not say so',
                    'a message and a status', (status, err[-300:]),
                    repr(item))
            wanted = given if state in BAD and not (
                odbc and odbc_state in BAD) else odbc_given
            if 'broken' not in (state, odbc_state) and (
                    os.path.basename(wanted) not in err and
                    repr(os.path.basename(wanted))[1:-1] not in err):
                raise Violation(
                    what + ' does not say which file cannot be read',
                    wanted, err[-300:], repr(item))
            st.outcome((command, 'fails', err[-30:]), True)
            return
        want = markers(command, 'One', odbc)
        if seen != want:
            raise Violation(what + ' does not read the right files', want,
                            seen or err, repr(item))
        if names is not None:
            wanted = sorted(
                ([(True, odbc_given)] if odbc else []) +
                [(command == 'func_odbc-check', given)])
            if names != wanted:
                raise Violation(what + ' gives other names to the files',
                                wanted, names, repr(item))
        st.outcome((command, tuple(want), status), True)


def file_items():
    for command in COMMANDS:
        for form in forms('x'):
            for state in ('fine', 'link') + BAD:
                if state in ('dir', 'loop') and form[0] == 'default':
                    pass
                modes = ['auto', 'two']
                if command in WITH_ODBC:
                    modes += ['empty', 'other', 'same', 'twice',
                              'twice-empty', 'twice-both']
                for mode in modes:
                    odbc_states = ['missing']
                    if mode in ('auto', 'other', 'same') and (
                            command in WITH_ODBC):
                        odbc_states = ('fine', 'link') + BAD[:-1]
                    for odbc_state in odbc_states:
                        yield command, form[0], state, mode, odbc_state


def spaces(tier):
    return [FilesSpace(
        'files', '{} commands x {} ways to name the file x 9 states of it x '
        'ways to have func_odbc.conf x 8 states of that'.format(
            len(COMMANDS), len(list(forms('x')))), file_items)]
