"""
P19: what is printed and the exit status, for everything that is found and
that is or is not to be ignored. The real command line, in a process of its
own for each setting of ALINT_IGNORE.
"""
import os
import pickle
import re
import subprocess
import sys

from mc import core, impl
from mc.core import Space, Violation, near, sequences
from mc.ref import apps as refapps
from mc.ref import dialplan as refdp

ASSUMPTIONS = [
    'what is found is taken from the parsers (the other properties are '
    'about that); this is about which of it is printed',
    'nothing is stripped from the entries of ALINT_IGNORE',
]
RUNNER = os.path.join(core.VERIF, 'mc', 'runner.py')

HEAD = '[general]\n\n[globals]\n\n[a]\nexten => s,1,NoOp()\n'
LINES = [
    'same => n,Nope()', 'same => n,noop()', 'same => n,Wait', 'junk',
    'same => n,Goto(1|2)', 'same => n,NoOp(${a-b})', 'same => n,NoOp(()',
    'same =>  n,NoOp()', 'exten => _[,1,NoOp()', 'exten => s,1,NoOp()',
    'exten => s,bad,NoOp()', 'exten = s,n,NoOp()', 'exten => _XX[5],1,NoOp()',
    'same => n,NoOp(${nope()})', 'same => n,NoOp(${len(a)})', '[b](c)',
    'same => n,NoOp(${a:0})', 'same => n,Goto(b,1)', 'same => n,NoOp() ',
    'foo=1', '#include nope.conf', '#exec a{b}', 'same => n,Set(a b=1)',
    'same => n,NoOp({0}{a}\xe9%s)', 'same => n,\xe9\u20ac{a}()',
    'switch => a', '; ;', '', '\n\n\n', '[general]', 'same => n,Wait (1)',
    'same => n,NoOp(${a-b}${a-b})', 'same => n,NoOp(${nope()}${nope(1)})']


def document(lines):
    return HEAD + ''.join(i + '\n' for i in lines)


DOCS = [(), ('junk',), (LINES[0],), (LINES[1],), (LINES[7],),
        (LINES[12],), (LINES[25],), (LINES[0], LINES[0]),
        (LINES[0], LINES[1]), (LINES[4], LINES[7]), (LINES[13], LINES[1]),
        (LINES[23], LINES[24]), (LINES[2], LINES[12], LINES[25]),
        (LINES[0], LINES[7], LINES[12]), (LINES[-2],), (LINES[-1], LINES[-2]),
        tuple(LINES)]
ODBC = ['', '[F]\nreadsql=1\n', '[f]\nreadsql=1\n', '[F]\nread=1\n',
        '[F]\n', '[F]\nreadsql=1\\;\n', '[F]\nreadsql=1\nnope=2\n',
        '[F]\nread=1\nread=2\ndsn => 3\n[g]\n']
ENTRIES = ['', 'E_', 'W_', 'H_', 'I_', 'E_APP_', 'E_APP', 'E_APP_MISSING',
           'E_APP_MISSIN', 'E_APP_MISSING_', 'W_WSH_', 'W_APP_BAD_CASE', '_',
           ' E_APP_MISSING', 'e_app_missing', 'E', 'NOPE', 'W_ODBC_LEGACY',
           'E_CONF_KEY_', 'W_WSH_OBJSET', 'H_PAT_NON_CANONICAL', 'MISSING']


def silenced(id_, ignore):
    for entry in (ignore or '').split(','):
        if id_ == entry or (entry[-1:] == '_' and
                            id_[:len(entry)] == entry):
            return True
    return False


def found(cls, name, data, func_odbc=None):
    """All there is to report: [(file, lineno, id, text)]."""
    impl.reset()
    if func_odbc is not None:
        list(impl.load(impl.FileFuncOdbcParser, {'func_odbc.conf': func_odbc},
                       'func_odbc.conf'))
    parser = impl.load(cls, {name: data}, name)
    if cls is impl.FileDialplanParser:
        for plan in parser:
            plan.walk_jump_destinations()
    else:
        list(parser)
    ret = impl.messages(True)
    impl.reset()
    return ret


def run_all(argvs, env):
    full = dict(os.environ)
    full.pop('ALINT_IGNORE', None)
    full.update(env)
    proc = subprocess.run(
        [sys.executable, '-B', RUNNER, core.REPO],
        input=pickle.dumps({'preload': True, 'argvs': argvs}, 4),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=full)
    if proc.returncode:
        raise Violation('the command line cannot be run with %r' % (env,),
                        0, proc.stderr.decode('utf-8', 'replace'))
    return pickle.loads(proc.stdout)


class IgnoreSpace(impl.Forked, Space):
    load = False
    hang = 200

    def __init__(self, name, bound, items, jobs):
        self.name, self.bound, self._items = name, bound, items
        self.jobs = jobs    # [(argv, class, main file, files)]

    def items(self):
        return self._items()

    def setup_worker(self):
        super().setup_worker()
        self.wanted = []
        for argv, cls, name, files in self.jobs:
            for fn, data in files.items():
                if os.path.dirname(fn):
                    os.makedirs(self.scratch.join(os.path.dirname(fn)),
                                exist_ok=True)
                self.scratch.write(fn, data.encode('utf-8'))
            odbc = os.path.join(os.path.dirname(name), 'func_odbc.conf')
            self.wanted.append(found(
                cls, name, files[name].encode('utf-8'),
                files[odbc].encode('utf-8') if odbc in files and
                cls is impl.FileDialplanParser else None))

    def check(self, ignore, st):
        env = {} if ignore is None else {'ALINT_IGNORE': ignore}
        ran = run_all([i[0] for i in self.jobs], env)
        for job, want, (rc, out, err) in zip(self.jobs, self.wanted, ran):
            want = sorted(
                '%s:%d %s: %s' % ((os.path.basename(i[0]),) + tuple(i[1:]))
                for i in want if not silenced(i[2], ignore))
            lines = err.decode('utf-8').split('\n')
            got = sorted(re.sub(r'^[^ :]*/', '', i) for i in lines[:-1])
            key = repr((ignore, job[0]))
            if got != want or lines[-1]:
                raise Violation(
                    'with ALINT_IGNORE %r, %r prints something else'
                    % (ignore, job[0]),
                    [i for i in want if i not in got] or want,
                    [i for i in got if i not in want] or got, key)
            if rc != (1 if want else 0):
                raise Violation(
                    'with ALINT_IGNORE %r, the exit status of %r is %r'
                    % (ignore, job[0], rc), 1 if want else 0, rc, key)
            if out:
                raise Violation(
                    'with ALINT_IGNORE %r, %r prints to standard output'
                    % (ignore, job[0]), b'', out, key)
            outcome = tuple(sorted(set(i.split(' ')[1] for i in want)))
            st.step(outcome)
            st.outcome(outcome, bool(want))


def jobs_for(docs, odbcs):
    ret = []
    for n, lines in enumerate(docs):
        name = 'd%d/extensions.conf' % n
        ret.append((['dialplan-check', name], impl.FileDialplanParser, name,
                    {name: document(lines)}))
    for n, text in enumerate(odbcs):
        name = 'o%d/my_odbc.conf' % n
        ret.append((['func_odbc-check', name], impl.FileFuncOdbcParser, name,
                    {name: text}))
    # Both.
    for n, text in enumerate(odbcs[:5]):
        for k, lines in enumerate(docs[:3]):
            name = 'b%d.%d/extensions.conf' % (n, k)
            ret.append((
                ['dialplan-check', name], impl.FileDialplanParser, name,
                {name: document(lines), os.path.join(
                    os.path.dirname(name), 'func_odbc.conf'): text}))
    return ret


def spaces(tier):
    quick = tier == 'quick'

    def entry_items():
        yield None
        for seq in sequences(ENTRIES, 1 if quick else 2, 1):
            yield ','.join(seq)
        few = ['E_', 'E_APP_MISSING', 'W_WSH_', '', 'H_']
        for seq in sequences(few, 3 if quick else 4, 2):
            yield ','.join(seq)
        yield 'E_,W_,H_,I_'
        for n in (4, 8, 9, 16, 17, 33, 65):
            # Many, only one of which counts.
            for where in (0, n // 2, n):
                more = ['NO_%d' % i for i in range(n)]
                yield ','.join(more[:where] + ['E_APP_MISSING'] +
                               more[where:])
                yield ','.join(more[:where] + ['W_'] + more[where:])
        for id_ in all_ids():
            # All but one.
            yield ','.join(i for i in all_ids() if i != id_)
        yield ',,,'
        yield 'E_ W_'
        yield 'E_;W_'
        yield 'E_, W_'

    def each_items():
        # Every message that there is: by name, one off, its beginnings.
        ids = all_ids()
        for id_ in ids:
            yield id_
            if not quick:
                yield id_[:-1]
                yield id_ + '_'
                yield ','.join(i for i in ids if i != id_)
                for n in range(len(id_)):
                    if id_[n] == '_':
                        yield id_[:n + 1]

    def edit_items():
        for base in ('E_APP_MISSING,W_WSH_', 'H_') if not quick else (
                'E_APP_MISSING,W_',):
            for other in near(base, ' _,Es;*' if quick else
                              ' \t_,;:|*?.^$%xEs0\xe9'):
                yield other

    every = tuple(LINES)
    docs = [(i,) for i in LINES] + [every]
    pairs = [(a, b) for i, a in enumerate(LINES) for b in LINES[i:]]
    return [
        IgnoreSpace('entries', 'all lists of up to 3 entries x %d documents'
                    % (len(DOCS) + len(ODBC)), entry_items,
                    jobs_for(DOCS, ODBC)),
        IgnoreSpace('each', 'every message on its own x documents',
                    each_items, jobs_for([(), every], ODBC[:1] + ODBC[-1:])),
        IgnoreSpace('edits', 'all single edits of ALINT_IGNORE settings',
                    edit_items, jobs_for([(), every], ODBC[-1:])),
        IgnoreSpace('documents', 'all documents of up to 2 out of %d lines x '
                    'settings' % len(LINES),
                    lambda: iter([None, '', 'E_', 'W_', 'W_,H_,I_',
                                  'E_APP_MISSING,W_', 'E_,W_,H_,I_',
                                  'E_APP_MISSING']),
                    jobs_for(docs + pairs, ODBC)),
    ]


def all_ids():
    types = getattr(impl.MessageDefManager, 'types', None)
    return sorted(types or refapps.ALL_IDS | refdp.IDS)
