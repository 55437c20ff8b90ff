"""
P18: func_odbc.conf, the checks of it and the functions that it defines.
"""
import re

from mc import impl
from mc.core import FnSpace, Space, Violation, near_documents, sequences
from mc.ref import apps as refapps
from mc.ref import odbc as ref

ASSUMPTIONS = [
    'the known keys, and their order, are those of the pinned commit',
    'a key is late if it should be before the accepted key right before it',
]
RE_MSG = re.compile(r'^(.*?):(\d+) ([A-Z]_[A-Z_]+): (.*)$')


def check_file(data, st):
    machine = ref.run(data, st)
    impl.reset()
    parser = impl.load(impl.FileFuncOdbcParser, {'a.conf': data})
    got_functions = [
        (i.where.lineno, i.name, i.get_function_name(),
         [(v.variable, v.value) for v in i]) for i in parser]
    want = sorted(machine.msgs)
    got = [i[1:] for i in impl.messages(True) if i[2] in ref.IDS]
    diff = refapps.differences(want, got)
    if diff:
        raise Violation('line %d is reported differently' % diff[0],
                        diff[1], diff[2], repr(data))
    want = [(lineno, name, '%s_%s' % (dict(keys).get('prefix') or 'ODBC',
                                      name), keys)
            for lineno, name, keys in machine.functions]
    if got_functions != want:
        raise Violation('other functions are found', want, got_functions,
                        repr(data))
    st.outcome(tuple(sorted(machine.msgs)), bool(machine.msgs))


# ---- What is defined

def parse_stderr(err):
    ret = []
    for line in err.split('\n'):
        if line:
            m = RE_MSG.match(line)
            if not m:
                raise Violation('%r on standard error' % line)
            ret.append((m.group(1), int(m.group(2)), m.group(3),
                        m.group(4)))
    return ret


HEAD = '[general]\n\n[globals]\n\n[a]\nexten => s,1,NoOp()\n'


def dialplan_for(names):
    calls = []
    for n in names:
        calls += ['NoOp(${%s(a)})' % n, 'Set(%s(a)=1)' % n]
    return HEAD + ''.join('same => n,%s\n' % i for i in calls), calls


class DefinedSpace(impl.Forked, Space):
    commands = ('dialplan-check',)

    def __init__(self, name, bound, items):
        self.name, self.bound, self._items = name, bound, items

    def items(self):
        return self._items()

    def check(self, item, st):
        files, args, odbc, asked = item
        text, calls = dialplan_for(asked)
        conf = [i for i in args if i.endswith('.conf') and '=' not in i and
                'odbc' not in i]
        conf = conf[-1] if conf else 'extensions.conf'
        files = dict(files)
        files[conf] = text
        self.put(dict((k, v.encode('utf-8')) for k, v in files.items()))
        status, out, err = self.run('dialplan-check', *args)

        functions, want = (), []
        if odbc is not None:
            machine = ref.run(files[odbc].encode('utf-8'))
            functions = [(name, 'func_odbc') for name in machine.names]
            want = [(odbc,) + i for i in machine.msgs]
        model = refapps.Model('v13', functions)
        if conf == 'extensions.conf' and conf not in args:
            conf = './extensions.conf'
        for n, call in enumerate(calls):
            model.msgs = []
            model.line(call)
            want += [(conf, n + 7) + i for i in model.msgs]
        got = parse_stderr(err)
        got = [(f, n, i, m) for f, n, i, m in got
               if i in ref.IDS | refapps.FUNCTION_IDS]
        names = sorted(set(i[0] for i in want + got))
        for name in names:
            w = [i[1:] for i in want if same_file(i[0], name)]
            g = [i[1:] for i in got if same_file(i[0], name)]
            diff = refapps.differences(sorted(w), sorted(g))
            if diff:
                raise Violation(
                    '%s:%d is reported differently' % (name, diff[0]),
                    diff[1], diff[2], repr(item))
        if want and status != 1:
            raise Violation('the exit status is %r' % status, 1, status,
                            repr(item))
        outcome = tuple(sorted(i[1:] for i in want))
        st.step((odbc is None, tuple(functions), outcome))
        st.outcome(outcome, bool(functions))


def same_file(a, b):
    return a.split('./')[-1] == b.split('./')[-1]


def spaces(tier):
    quick = tier == 'quick'
    d = 0 if quick else 1
    keys = list(ref.KEYS) + ['syntax', 'readSQL']

    def history_items():
        for seq in sequences(keys, 4 if quick else 5):
            yield b'[F]\n' + ''.join(
                '%s=v%d\n' % (k, n) for n, k in enumerate(seq)).encode()

    def document_items():
        lines = ['[A]', '[A_b]', 'dsn=a', 'readsql=SELECT 1', 'read=x\\;',
                 'prefix=X', 'writesql => UPDATE', 'nope=1', 'bad line',
                 'insertsql=a;b', '']
        for seq in sequences(lines, 5 + d):
            yield ''.join(i + '\n' for i in seq).encode()

    def value_items():
        values = ['', ';', '\\;', 'a\\;', 'a\\; ', 'a\\;\\;', 'a\\;;x', 'a;',
                  'a\\\\;', 'a ;--', 'a;--b--;', 'SELECT 1\\;', '\xe9\\;',
                  '>', '=', '=>', '"a;"', '\\;a', '\uff1b', 'a\t\\;\t', ' ',
                  '[b]', '(', 'a=b\\;', '\\']
        for key in keys + ['', 'Read', 'read ', ' read', '\tdsn', 'readsql\t',
                           'READSQL', 'read sql', 'same', 'exten', 'rea',
                           'readsqls', '#include', '\xe9']:
            for op in ('=', '=>', ' = ', ' => ', '= ', '==', '>='):
                for value in values:
                    line = '%s%s%s\n' % (key, op, value)
                    yield ('[F]\n' + line).encode('utf-8')
                    yield ('[F]\n' + line + line).encode('utf-8')
                    yield line.encode('utf-8')

    def name_items():
        for seq in sequences(['A', 'Z', '0', '_', 'a', '-', ' ', '\xe9'],
                             4 + d):
            name = ''.join(seq)
            yield ('[%s]\nreadsql=1\n' % name).encode('utf-8')
            yield ('[%s]\nprefix=%s\nwrite=1\n[%s]\n' % (
                name, name, name)).encode('utf-8')
        for c in map(chr, range(1, 0x250)):
            if c not in '\r\n\x1c\x1d\x1e\x1f':
                for name in (c, 'A' + c, c + 'A', 'A' + c + 'A'):
                    yield ('[%s]\nreadsql=1\n' % name).encode('utf-8')
        for n in (10, 100, 1000, 10000):
            for unit in ('A', 'A_', '_', 'A1', 'a', '__A'):
                yield ('[%s]\nread=1\n' % (unit * n)).encode()
                yield ('[%sA]\nread=1\n' % (unit * n)).encode()
                yield ('[%s!]\nread=1\n' % (unit * n)).encode()
        for text in ('[X](!)', '[X](T)', '[X](+)', '[X]x', '[X', 'X]', '[]',
                     '[[X]]', '[X] ', '[X]()', '[X][Y]', '[X]=1', ' [X]'):
            for head in ('', '[T]\nread=1\n', 'dsn=a\n', '[X]\nwrite=1\n'):
                for tail in ('', 'read=1\n', 'dsn=b\nread=2\n',
                             '[X](+)\nwrite=1\n'):
                    yield ('%s%s\n%s' % (head, text, tail)).encode()

    def long_items():
        for n in (10, 100, 1000):
            for unit in ('[F]\nread=1\n', '[F]\n', 'read=1\n', 'dsn=1\n',
                         '[F]\nread=1\ndsn=2\n', 'prefix=a\n', 'x\n'):
                yield (unit * n).encode()
                yield ('[A]\n' + unit * n).encode()

    bodies = ['readsql=1\n', 'writesql=1\n', 'read=1\n', 'write=1\n',
              'insertsql=1\n', 'dsn=x\n', '', 'readsql=\n', 'dsn=a\nread=b\n',
              'write=1\nread=2\n', 'read\\;=1\n', ';read=1\n', 'READ=1\n']
    prefixes = ['', 'prefix=X\n', 'prefix=\n', 'prefix=x\nprefix=X\n',
                'Prefix=X\n', 'prefix=odbc\n', 'prefix = X_\n',
                'dsn=1\nprefix=X\n', 'prefix=ODBC ;X\n']
    asked = ['ODBC_F', 'odbc_f', 'X_F', 'x_F', 'F', '_F', 'ODBC_G',
             'X__F', 'ODBC_f', 'LEN']

    def define_items():
        for name in ('F', 'f', 'ODBC_F'):
            for prefix in prefixes:
                for body in bodies:
                    text = '[%s]\n%s%s' % (name, prefix, body)
                    yield ({'func_odbc.conf': text}, ('extensions.conf',),
                           'func_odbc.conf', asked)
        for one in bodies[:8]:
            for two in bodies[:8]:
                for pre in prefixes[:2]:
                    for second in ('F', 'G'):
                        text = '[F]\n%s%s\n[%s]\n%s' % (
                            pre, one, second, two)
                        yield ({'func_odbc.conf': text},
                               ('extensions.conf',), 'func_odbc.conf',
                               asked)

    def way_items():
        one, two = '[F]\nread=1\n', '[G]\nprefix=X\nwritesql=1\\;\n'
        for where in ('', 'd/', './', 'd/e/'):
            ext = where + 'extensions.conf'
            name = where + 'func_odbc.conf'
            auto = {name: one}
            both = {name: one, 'f/odbc.conf': two}
            for args in ((ext,), (ext, '--func-odbc', 'f/odbc.conf'),
                         ('--func-odbc=f/odbc.conf', ext),
                         ('--func-odbc', '', ext), (ext, '--func-odbc=')):
                if args[-1] == '--func-odbc=' or '' in args:
                    used = None
                elif len(args) > 1:
                    used = 'f/odbc.conf'
                else:
                    used = name
                yield both, args, used, asked
                if used != 'f/odbc.conf':
                    yield auto, args, used, asked
                    yield {}, args, None, asked
                    yield {where + 'func-odbc.conf': one}, args, None, asked
        yield {'func_odbc.conf': one}, (), 'func_odbc.conf', asked
        yield {'func_odbc.conf': one}, ('--func-odbc=',), None, asked
        yield {'d/func_odbc.conf': one}, (), None, asked
        yield {'d/func_odbc.conf': one}, ('extensions.conf',), None, asked
        yield {'func_odbc.conf': one}, ('d/x.conf',), None, asked
        yield ({'func_odbc.conf': one, 'd/func_odbc.conf': two},
               ('d/x.conf',), 'd/func_odbc.conf', asked)

    edited = (
        ('[F]', 'prefix=X', 'dsn=a', 'readsql=SELECT 1', 'writesql = UPDATE',
         '[A_B](t)', 'insertsql=x\\;', 'read=y', '[G]', 'write => z',
         'mode=multirow', 'synopsis=s;c'),
        ('dsn=a', '[F]', 'readhandle=a,b', 'read=1', 'readsql=1', '[F]',
         '[H]', 'dsn=1', 'dsn=2', 'escapecommas=no'))

    def edit_items():
        for lines in edited:
            for seq in near_documents(lines):
                yield ''.join(i + '\n' for i in seq).encode('utf-8')

    return [
        FnSpace('edits', 'all single edits of %d files' % len(edited),
                edit_items, check_file),
        FnSpace('keys', 'all sequences of up to %d of %d keys'
                % (4 + d, len(keys)), history_items, check_file),
        FnSpace('documents', 'all documents of up to %d out of 11 lines'
                % (5 + d), document_items, check_file),
        FnSpace('values', '%d keys x 7 operators x values, once and twice'
                % (len(keys) + 15), value_items, check_file),
        FnSpace('names', 'all names of up to %d characters, every character '
                'up to U+024F, and long ones' % (4 + d), name_items,
                check_file),
        FnSpace('long', 'repetition of up to 1000', long_items, check_file),
        DefinedSpace('defined', 'names x prefixes x statements, in one or '
                     'two functions; %d calls' % len(asked), define_items),
        DefinedSpace('ways', 'all ways to pass the file, or not', way_items),
    ]
