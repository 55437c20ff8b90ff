"""
P28: func_odbc-annotate, the statements of the functions.
"""
import itertools
import re
import sys
import types

from .. import impl
from ..core import Space, Violation, near_documents, sequences
from ..ref import odbc as ref

ASSUMPTIONS = [
    'sqlparse is not installed: a stand-in knows simple SELECT statements, '
    'and formats nothing',
    'a file has one statement per key',
]


# ---- A stand-in for sqlparse

class Token(object):
    ttype = None

    def __init__(self, value, ttype=None):
        self.value = value
        if ttype:
            self.ttype = ttype

    def __str__(self):
        return self.value

    def match(self, ttype, values, regex=False):
        if self.ttype != ttype:
            return False
        if isinstance(values, str):
            values = [values]
        if regex:
            return any(re.search(i, self.value, re.I) for i in values)
        return self.value.upper() in [i.upper() for i in values]


class Identifier(Token):
    def get_alias(self):
        m = re.search(r'\sAS\s+(\w+)$', self.value, re.I)
        return m.group(1) if m else None


class Function(Identifier):
    pass


class IdentifierList(Token):
    def get_identifiers(self):
        for one in self.value.split(','):
            one = one.strip()
            yield (Function if '(' in one else Identifier)(one)


class Statement(object):
    def __init__(self, tokens):
        self.tokens = tokens


SELECT = re.compile(r'^(SELECT)(\s+)(.*?)(?:(\s+)(FROM)(\s.*))?$', re.I)


def parse(query):
    m = SELECT.match(query)
    if not m:
        return [Statement([Token(i, 'other') for i in re.findall(
            r'\s+|\S+', query)])]
    what = m.group(3)
    tokens = [
        Token(m.group(1), 'DML'), Token(m.group(2), 'ws'),
        (IdentifierList if ',' in what else Function if '(' in what
         else Identifier)(what)]
    if m.group(4):
        tokens += [Token(m.group(4), 'ws'), Token(m.group(5), KEYWORD),
                   Token(m.group(6), 'other')]
    return [Statement(tokens)]


class Keyword(str):
    DML = 'DML'


KEYWORD = Keyword('keyword')


def install_sqlparse():
    module = types.ModuleType('sqlparse')
    module.format = lambda query, **kwargs: query
    module.parse = parse
    module.sql = types.SimpleNamespace(
        Token=Token, Identifier=Identifier, Function=Function,
        IdentifierList=IdentifierList, Statement=Statement)
    module.tokens = types.SimpleNamespace(Keyword=KEYWORD, Whitespace='ws')
    for name in ('sqlparse', 'sqlparse.sql', 'sqlparse.tokens'):
        sys.modules[name] = module if name == 'sqlparse' else getattr(
            module, name.split('.')[1])
    # It was looked for already.
    for name, mod in list(sys.modules.items()):
        if name.startswith('asterisklint') and hasattr(mod, 'sqlparse'):
            mod.sqlparse = module


# ---- What is shown

def columns(query):
    """The names of what is selected."""
    m = re.match(r'(?i)select\s+(.*)$', query)
    if not m:
        return []
    what = re.split(r'(?i)\s+from\s', m.group(1))[0]
    ret = []
    for one in what.split(','):
        parts = re.split(r'(?i)\sas\s+', one.strip())
        ret.append(parts[-1])
    return ret


def model(data):
    """[(function, [(type, columns, statement)])]"""
    ret = []
    for _, name, keys in ref.run(data).functions:
        keys = dict(keys)
        shown = []
        for type_, names in (('insert', ('insertsql',)),
                             ('read', ('readsql', 'read')),
                             ('write', ('writesql', 'write'))):
            query = [keys[i].strip() for i in names if keys.get(i)]
            if query:
                query = query[0]
                shown.append((
                    type_, columns(query) if type_ == 'read' else [],
                    query if query.endswith(';') else query + ';'))
        ret.append(('%s_%s' % (keys.get('prefix') or 'ODBC', name), shown))
    return ret


def parsed(out):
    """The same, from the output."""
    ret = []
    section, columns_ = None, []
    for line in out.split('\n')[2:]:
        m = re.match(r'-- FUNCTION TYPE: (.*)$', line)
        n = re.match(r'-- +(\d+)\. (.*)$', line)
        if line in ('', '-- .', '-- COLUMNS:'):
            pass
        elif m:
            section, columns_ = m.group(1), []
        elif n:
            columns_.append(n.group(2))
            if int(n.group(1)) != len(columns_):
                raise Violation('a column has the wrong number',
                                len(columns_), n.group(1))
        elif line.startswith('-- '):
            ret.append((line[3:], []))
            section = None
        elif section is None:
            raise Violation('there is a statement of nothing', None, line)
        else:
            ret[-1][1].append((section, columns_, line))
            section = None
    if section:
        raise Violation('a statement is missing', section, out[-300:])
    return ret


class AnnotateSpace(impl.Forked, Space):
    load = False

    def __init__(self, name, bound, items):
        self.name, self.bound, self._items = name, bound, items

    def items(self):
        return self._items()

    def setup_worker(self):
        install_sqlparse()
        self.commands = ['func_odbc-annotate']
        super().setup_worker()

    def check(self, item, st):
        text, args = item
        data = text.encode('utf-8')
        self.put({})
        self.scratch.write(args[-1] if args else 'func_odbc.conf', data)
        impl.reset()
        status, out, err = impl.run_loud('func_odbc-annotate', *args)
        want = model(data)
        got = parsed(out)
        if got != want:
            n = [a == b for a, b in zip(got, want)] + [False]
            n = n.index(False)
            raise Violation('%r is shown differently' % text, want[n:n + 1],
                            got[n:n + 1], repr(item))
        if status or err:
            raise Violation('%r is not shown' % text, 0, (status, err),
                            repr(item))
        st.step(repr(want))
        st.outcome(repr(want), any(i[1] for i in want))


QUERIES = [
    'SELECT a', 'SELECT a, b FROM t', 'select a,b AS c from t WHERE d=1',
    "SELECT f(x) AS y FROM t WHERE a='${SQL_ESC(${ARG1})}'", 'SELECT f(1)',
    'UPDATE t SET a=1', 'INSERT INTO t VALUES (1, 2)', 'CALL x()', 'a',
    'SELECT a\\;', 'UPDATE t\\;', '\\;', 'SELECT  a  ,  b', '1=1', '=', '',
    'SELECT "\u20ac" FROM t', '-', 'SELECTED', 'SELECT a FROMAGE', ' x ',
    'x ;comment', 'a => b', "UPDATE t SET a='\\;'", 'a\\;b', '\\;x',
    'SELECT a FROM t WHERE b="\\;"', '\\;\\;', 'a\\; ', "\\;''"]


def spaces(tier):
    quick = tier == 'quick'
    keys = ['prefix', 'dsn', 'readsql', 'writesql', 'insertsql', 'read',
            'write', 'Readsql']

    def key_items():
        for seq in sequences(keys, 4 if quick else 5):
            yield '[F]\n' + ''.join('%s=V%d\n' % (k, n)
                                    for n, k in enumerate(seq)), ()

    def empty_items():
        for values in itertools.product(
                (None, '', 'A', 'B\\;'), repeat=5):
            for prefix in ('', 'prefix=\n', 'prefix=X\n'):
                yield '[F]\n' + prefix + ''.join(
                    '%s=%s\n' % (k, v) for k, v in zip(keys[2:7], values)
                    if v is not None), ('x.conf',)

    def query_items():
        for key in keys:
            for one in QUERIES:
                for op in ('=', ' = ', '=>', ' => '):
                    yield '[F]\n' + key + op + one + '\n', ()
                for two in QUERIES:
                    yield '[F]\n%s=%s\nwritesql=%s\nread=%s\n' % (
                        key, one, two, one), ()

    def function_items():
        lines = ['[A]', '[A_B]', '[b]', 'prefix=X', 'readsql=SELECT a, b',
                 'writesql=W', 'insertsql=I', 'read=R', '', 'junk']
        for seq in sequences(lines, 4 if quick else 5):
            yield ''.join(i + '\n' for i in seq), ('d.conf',)

    document = ('[F]', 'prefix=X', 'readsql=SELECT a, b AS c FROM t',
                'writesql = W', '[A_B]', 'read => R\\;', 'insertsql=I')

    def edit_items():
        # Not of the columns themselves, see 'columns'.
        for seq in near_documents(document):
            if all('select' not in i.lower() or
                   i.endswith('SELECT a, b AS c FROM t') for i in seq):
                yield '\n'.join(seq) + '\n', ()

    return [
        AnnotateSpace('edits', 'all single edits of a file of %d lines'
                      % len(document), edit_items),
        AnnotateSpace('keys', 'all sequences of up to %d of %d keys' % (
            4 if quick else 5, len(keys)), key_items),
        AnnotateSpace('empty', 'all of 4 values (none, empty, two others) of '
                      'the 5 statements x prefixes', empty_items),
        AnnotateSpace('statements', '%d keys x %d statements x operators, '
                      'and pairs of statements' % (len(keys), len(QUERIES)),
                      query_items),
        AnnotateSpace('functions', 'all files of up to %d of 10 lines' % (
            4 if quick else 5), function_items),
    ]
