"""
P03: #include. A stack machine (file, position) against the parser.
"""
import itertools
import os
import shutil
import tempfile

from mc import impl
from mc.core import FnSpace, Violation, sequences

ASSUMPTIONS = [
    'the element stream is observed through the variables of one context '
    '(their order, values, file names and line numbers)',
]

# Canonical file name => how the other files call it.
A, B, C, E, M = 'd/a.conf', 'd/b.conf', 'd/s/c.conf', 'e.conf', 'd/no.conf'
HEAD = '[c]'


def relative(src, dst):
    if dst.startswith('//'):
        # A roundabout way to say it.
        dst = dst[2:]
        ret = os.path.relpath(dst, os.path.dirname(src) or '.')
        return './s/../' + ret
    return os.path.relpath(dst, os.path.dirname(src) or '.')


def directive(src, sym, n=0):
    kind, dst = sym
    name = relative(src, dst)
    quoted = ('%s', '"%s"', '<%s>')[n % 3] % name
    return ('#include ' if kind == 'I' else '#tryinclude ') + quoted, name


def build(files):
    """{name: [symbols]} => {name: bytes}"""
    ret = {}
    for name, syms in files.items():
        lines = [HEAD] if name == A else []
        for n, sym in enumerate(syms):
            if sym == 'V':
                lines.append('v%s=%d' % (name[-6], n))
            elif sym == 'J':
                lines.append('junk')
            else:
                lines.append(directive(name, sym, n)[0])
        ret[name] = ''.join(i + '\n' for i in lines).encode()
    return ret


def expand(files, fails, st):
    """
    The stack machine. ``fails`` is the set of open calls (by number)
    that fail. Returns (stream, messages, number of opens).
    """
    stream, msgs = [], []
    opens = [0]
    stack = [[A, A, 0]]  # name as opened, canonical name, position
    while stack:
        shown, name, pos = stack[-1]
        syms = files[name]
        if pos == len(syms):
            stack.pop()
            st.step(tuple((i[0], i[2]) for i in stack))
            continue
        stack[-1][2] += 1
        sym = syms[pos]
        lineno = pos + (2 if name == A else 1)
        if sym == 'V':
            stream.append(('v' + name[-6], str(pos), shown, lineno))
        elif sym == 'J':
            msgs.append((shown, lineno, 'E_CONF_BAD_LINE'))
        else:
            kind, dst = sym
            rel = relative(name, dst)
            dst = dst.lstrip('/')
            path = os.path.join(os.path.dirname(shown), rel)
            n = opens[0]
            busy = dst in [i[1] for i in stack]
            if not busy:
                opens[0] += 1
            # A file that is being read cannot be included.
            if busy or n in fails or dst not in files:
                if kind == 'I':
                    msgs.append((shown, lineno, 'W_PP_INCLUDE_MISSING'))
            else:
                stack.append([path, dst, 0])
        st.step(tuple((i[0], i[2]) for i in stack))
    msgs.sort()
    return stream, msgs, opens[0]


class Opener(object):
    def __init__(self, files, fails=(), error=FileNotFoundError):
        self.files, self.fails, self.error = files, fails, error
        self.opens = -1  # the main file does not count
        self.objs = []

    def __call__(self, filename):
        n = self.opens
        self.opens += 1
        if n >= 0 and n in self.fails:
            raise self.error(filename)
        try:
            data = self.files[os.path.normpath(filename)]
        except KeyError:
            raise FileNotFoundError(filename)
        fp = impl.File(filename, data)
        self.objs.append(fp)
        return fp


def observe(parser):
    got = []
    for context in parser:
        for i in range(len(context)):
            v = context[i]
            got.append((v.variable, v.value, v.where.filename,
                        v.where.lineno))
    return got


def compare(files, fails, error, st):
    stream, msgs, opens = expand(files, fails, st)
    opener = Opener(build(files), fails, error)
    impl.reset()
    parser = impl.FileConfigParser(opener=opener)
    parser.include(A)
    got = observe(parser)
    if got != stream:
        raise Violation('the expanded stream differs', stream, got)
    gotmsgs = impl.messages()
    if gotmsgs != msgs:
        raise Violation('diagnostics differ', msgs, gotmsgs)
    if opener.opens != opens:
        raise Violation('number of opened files differs', opens,
                        opener.opens)
    left = [i.name for i in opener.objs if not i.closed]
    if left:
        raise Violation('files are still open', [], left)
    st.outcome((tuple(stream), tuple(msgs)), bool(msgs))
    return opens


def check_tree(item, st):
    compare(dict(item), (), FileNotFoundError, st)


def check_faults(item, st):
    """Every subset of the opens fails, with every kind of error."""
    files = dict(item)
    opens = compare(files, (), FileNotFoundError, st)
    todo, seen = [()], set()
    while todo:
        fails = todo.pop()
        if fails in seen:
            continue
        seen.add(fails)
        n = 0
        for error in (FileNotFoundError, PermissionError,
                      IsADirectoryError, NotADirectoryError, OSError):
            n = compare(files, fails, error, st)
        for k in range((max(fails) + 1) if fails else 0, n):
            todo.append(fails + (k,))
    del opens


def trees(na, nb, nc, quick):
    amain = ['V', ('I', B), ('I', C), ('I', E), ('T', B), ('T', M),
             ('I', M)]
    if not quick:
        amain += ['J', ('T', C)]
    bsyms = ['V', ('I', C), ('I', E), ('I', M)]
    csyms = ['V', ('I', E)]
    for a in sequences(amain, na):
        reach = {i[1] for i in a if i not in ('V', 'J')}
        bs = list(sequences(bsyms, nb)) if B in reach else [None]
        for b in bs:
            reach2 = reach | {i[1] for i in b or () if i != 'V'}
            cs = list(sequences(csyms, nc)) if C in reach2 else [None]
            for c in cs:
                reach3 = reach2 | {i[1] for i in c or () if i != 'V'}
                es = [(), ('V',), ('V', 'V')] if E in reach3 else [None]
                for e in es:
                    yield tuple((k, v) for k, v in (
                        (A, a), (B, b), (C, c), (E, e)) if v is not None)


def cycles(na, nb, nc):
    """Files that include themselves and each other."""
    amain = ['V', ('I', A), ('T', A), ('I', '//' + A), ('I', B), ('I', C)]
    bsyms = ['V', ('I', A), ('I', B), ('T', '//' + A), ('I', C)]
    csyms = ['V', ('I', A), ('I', B), ('T', C)]
    for a in sequences(amain, na):
        more = {i[1] for i in a if i != 'V'} & {B, C}
        bs = sequences(bsyms, nb) if more else [None]
        for b in bs:
            cs = sequences(csyms, nc) if more else [None]
            for c in cs:
                yield tuple((k, v) for k, v in (
                    (A, a), (B, b), (C, c)) if v is not None)


def chains():
    """Long chains: every file includes the next, at every position."""
    for n in (2, 3, 5, 17, 40):
        for before in (0, 1, 2):
            for after in (0, 1, 2):
                for twice in ((False, True) if n < 6 else (False,)):
                    yield n, before, after, twice


def check_chain(item, st):
    n, before, after, twice = item
    files, stream = {}, []

    def name(k):
        return 'x/' * k + 'f%d' % k

    for k in range(n):
        lines = ['[c]'] if k == 0 else []
        lines += ['b%d=%d' % (k, i) for i in range(before)]
        if k + 1 < n:
            lines += ['#include x/f%d' % (k + 1)] * (2 if twice else 1)
        lines += ['a%d=%d' % (k, i) for i in range(after)]
        files[name(k)] = lines

    def walk(k):
        st.step((n, k))
        for i, line in enumerate(files[name(k)]):
            if '=' in line:
                var, val = line.split('=')
                stream.append((var, val, name(k), i + 1))
            elif '#' in line:
                walk(k + 1)
    walk(0)
    opener = Opener(dict((k, ''.join(i + '\n' for i in v).encode())
                         for k, v in files.items()))
    impl.reset()
    parser = impl.FileConfigParser(opener=opener)
    parser.include('f0')
    got = observe(parser)
    if got != stream:
        raise Violation('the expanded stream differs', stream, got)
    if impl.messages():
        raise Violation('unexpected diagnostics', [], impl.messages())
    left = [i.name for i in opener.objs if not i.closed]
    if left:
        raise Violation('files are still open', [], left)
    st.outcome(tuple(stream), True)


class RealSpace(FnSpace):
    """Real files, real open(), from several working directories."""
    def setup_worker(self):
        self.dir = tempfile.mkdtemp(prefix='alint-mc-p03-')
        self.cwd = os.getcwd()

    def teardown_worker(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)


def real_items():
    shapes = [
        ((A, ('V', ('I', B), 'V')), (B, ('V', ('I', C))), (C, (('I', E),)),
         (E, ('V',))),
        ((A, (('I', C), ('T', M), 'V')), (C, ('V', ('I', E), 'V')),
         (E, ('V',))),
        ((A, (('I', M), ('I', E), ('I', E))), (E, ('V', 'V'))),
        ((A, (('I', B), ('I', C), ('I', E))), (B, (('I', E),)),
         (C, (('I', E), 'V')), (E, ())),
        ((A, (('I', 'd/s'), 'V', ('T', 'd/s'))),),   # a directory
        ((A, (('I', 'd/x\0y'), 'V', ('T', '\0'))),),  # no such name
        ((A, (('I', 'd/loop'), 'V', ('T', 'd/dangling'))),),
        ((A, (('I', 'd/a.conf/b'), 'V')),),           # not a directory
        ((A, ('V', ('I', A), ('T', A), ('I', '//' + A), 'V')),),
        ((A, (('I', 'd/again'), 'V', ('I', 'd/again'), ('I', A))),),
        ((A, (('I', B), 'V')), (B, ('V', ('I', A), ('I', 'd/again'),
                                    ('I', 'd/s/again'), 'V'))),
        ((A, (('I', B), 'V', ('I', C))), (B, (('I', C), ('I', B))),
         (C, (('I', B), ('I', A), 'V', ('I', C)))),
    ]
    for shape in shapes:
        for cwd in ('', 'd', 'd/s', '/'):
            for absolute in (False, True):
                yield shape, cwd, absolute


def check_real(space, item, st):
    shape, cwd, absolute = item
    top = space.dir
    os.chdir(top)
    shutil.rmtree(os.path.join(top, 'w'), ignore_errors=True)
    work = os.path.join(top, 'w')
    os.makedirs(os.path.join(work, 'd/s'))
    os.symlink('loop', os.path.join(work, 'd/loop'))
    os.symlink('nowhere', os.path.join(work, 'd/dangling'))
    # Another name for the main file.
    os.symlink('a.conf', os.path.join(work, 'd/again'))
    os.symlink('../a.conf', os.path.join(work, 'd/s/again'))
    files = dict(shape)
    for name, data in build(files).items():
        with open(os.path.join(work, name), 'wb') as f:
            f.write(data)
    os.chdir('/' if cwd == '/' else os.path.join(work, cwd))
    main = os.path.join(work, A)
    if not absolute:
        main = os.path.relpath(main)
    prefix = main[:-len(os.path.basename(A))]
    fds = sorted(os.listdir('/proc/self/fd'))
    impl.reset()
    parser = impl.FileConfigParser()
    parser.include(main)
    got = observe(parser)
    fds2 = sorted(os.listdir('/proc/self/fd'))
    os.chdir(top)
    stream, msgs, _ = expand(files, (), st)

    def real(shown):
        return prefix + shown[len('d/'):]
    stream = [(a, b, real(f), n) for a, b, f, n in stream]
    msgs = sorted((real(f), n, i) for f, n, i in msgs)
    # A NUL is a control character.
    gotmsgs = [i for i in impl.messages() if i[2] != 'W_FILE_CTRL_CHAR']
    if got != stream:
        raise Violation('the expanded stream differs', stream, got)
    if gotmsgs != msgs:
        raise Violation('diagnostics differ', msgs, gotmsgs)
    if len(fds2) > len(fds):
        raise Violation('file descriptors are leaked', fds, fds2)
    st.outcome((tuple(stream), tuple(msgs)), bool(msgs))


def spaces(tier):
    quick = tier == 'quick'
    na, nb, nc = (3, 2, 2) if quick else (4, 3, 2)
    real = RealSpace(
        'real-files', 'real directory trees with absolute and relative '
        'names from several working directories, with directories, loops, '
        'dangling links and NUL names as include', real_items, None)
    real._fn = lambda item, st: check_real(real, item, st)
    fa, fb = (3, 2) if not quick else (2, 2)
    return [
        real,
        FnSpace('trees', 'all trees of four files in three directories: up '
                'to %d symbols in the main file, %d and %d in the others, '
                'every directive at every position' % (na, nb, nc),
                lambda: trees(na, nb, nc, quick), check_tree),
        FnSpace('faults', 'all trees of up to %d/%d/1 symbols, every subset '
                'of the opens fails, five kinds of errors' % (fa, fb),
                lambda: trees(fa, fb, 1, quick), check_faults),
        FnSpace('cycles', 'all graphs of three files that include themselves '
                'and each other, with up to %d/%d/%d symbols' % (na, 2, nc - 1),
                lambda: cycles(na, 2, nc - 1),
                check_tree),
        FnSpace('cycle-faults', 'the same of up to 2/1/1 symbols, every '
                'subset of the opens fails, five kinds of errors',
                lambda: cycles(2, 1, 1), check_faults),
        FnSpace('chains', 'include chains of up to 40 files', chains,
                check_chain),
    ]
