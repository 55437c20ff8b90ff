"""
P23: ident-scan lists all identifiers, and all pairs that look alike.
"""
import itertools
import re

from .. import impl, stubs
from ..core import (
    NEAR, Space, Violation, near_documents, sequences)
from ..ref import apps as refapps, dialplan as refdialplan

ASSUMPTIONS = [
    'editdistance is not installed: a stand-in (Levenshtein, by definition) '
    'is used',
]


# ---- By the book

def by_name(name):
    return name.lower(), name


def by_length(name):
    return len(name), name.lower(), name


def alike(a, b):
    distance = stubs.distance(a.lower(), b.lower())
    if distance == 0 and ((a.isupper() and b.islower()) or
                          (a.islower() and b.isupper())):
        return False
    if re.match('ARG[0-9]+$', a) and re.match('ARG[0-9]+$', b):
        return False
    return distance <= 2 and distance < len(a) - 1 and distance < len(b) - 1


def pairs(names):
    """{name: set of names}"""
    ret = {}
    for key in (by_name, by_length):
        order = sorted(names, key=key)
        for a, b in zip(order, order[1:]):
            if alike(a, b):
                ret.setdefault(a, set()).add(b)
                ret.setdefault(b, set()).add(a)
    return ret


def flatten(files, name='a.conf'):
    """[(file, line)] of what is in the files, in the order of reading."""
    for line in files[name].split(b'\n'):
        m = re.match(br'^#include (\S+)$', line)
        if m:
            yield from flatten(files, m.group(1).decode('utf-8'))
        else:
            yield name, line


def identifiers(files):
    """Returns contexts, labels and {variable: [file, ...]}."""
    lines = list(flatten(files))
    plan = refdialplan.run(b''.join(i[1] + b'\n' for i in lines))
    variables = {}
    for lineno, text in plan.attempts:
        model = refapps.Model('v13')
        model.line(text)
        for name in model.variables:
            variables.setdefault(name, []).append(lines[lineno - 1][0])
    labels = set(e.label for c in plan.contexts for e in c.entries if e.label)
    return [c.name for c in plan.contexts], labels, variables


def expected(files, verbose):
    """The status, and the lines of the output."""
    contexts, labels, variables = identifiers(files)
    out = []
    if verbose:
        out.append('Contexts encountered:')
        out.extend('  ' + i for i in sorted(contexts, key=by_name))
        out.append('')
        out.append('Labels encountered:')
        out.extend('  ' + i for i in sorted(labels, key=by_name))
        out.append('')
        out.append('Variables encountered:')
        out.extend('  %-32s  [%d times in %d files]' % (
            i, len(variables[i]), len(set(variables[i])))
            for i in sorted(variables, key=by_name))
        out.append('')
    found = pairs(set(contexts) | labels | set(variables))
    if found:
        out.append('Identifiers with similar names include:')
        out.extend('  %-32s  [similar to: %s]' % (
            i, ', '.join(sorted(found[i])))
            for i in sorted(found, key=by_name))
        out.append('')
    return int(bool(found)), out


def squeeze(lines):
    """How it is aligned is not our concern."""
    return [re.sub(' +', ' ', i) for i in lines]


class ScanSpace(impl.Forked, Space):
    commands = ('ident-scan',)

    def __init__(self, name, bound, items, build):
        self.name, self.bound, self._items = name, bound, items
        self.build = build

    def items(self):
        return self._items()

    def setup_worker(self):
        stubs.install_editdistance()
        super().setup_worker()

    def check(self, item, st):
        files = self.build(item)
        for name, data in files.items():
            self.scratch.write(name, data)
        for args in (['-v', 'a.conf'], ['a.conf']):
            want, lines = expected(files, args[0] == '-v')
            status, out, err = self.run('ident-scan', *args)
            got = squeeze(out.split('\n')[:-1])
            if (int(status), got, err) != (want, squeeze(lines), ''):
                raise Violation(
                    'ident-scan {} of {!r}'.format(' '.join(args), files),
                    (want, '\n'.join(lines)), (status, out, err),
                    repr(files))
            st.step((want, tuple(lines)))
        st.outcome((want, tuple(lines)), bool(want))


# ---- Sets of identifiers

POOL = ['abcd', 'abce', 'ABCD', 'Abcd', 'abcde', 'xabcd', 'abdc', 'abxy',
        'abc', 'ab', 'a', 'abcdef', 'ARG1', 'ARG2', 'ARG10', 'ARGX', 'arg1',
        'ARG', 'ARG_1', 'context', 'contexts', 'conetxt', 'CONTEXT',
        'contex_t2', 'zcontext']
KINDS = ('context', 'label', 'variable')
HEAD = b'[general]\n[globals]\n'


def place(item):
    """A dialplan with identifiers: [(kind, name), ...]"""
    out = [HEAD]
    contexts = [name for kind, name in item if kind == 'context']
    for name in contexts or ['q']:
        out.append('[{}]\nexten => s,1,NoOp()\n'.format(name).encode('utf-8'))
    for n, (kind, name) in enumerate(item):
        if kind == 'label':
            out.append(' same => n({}),NoOp()\n'.format(name).encode('utf-8'))
        elif kind == 'variable':
            out.append(' same => n,NoOp({}${{{}}})\n'.format(
                n, name).encode('utf-8'))
    return {'a.conf': b''.join(out)}


# ---- Every place where a variable may be

LINES = [
    'exten => s,1,NoOp(${AAAA})', ' same => n,NoOp(${AAAA}${AAAA})',
    ' same => n,Set(AAAA=${BBBB})', ' same => n(AAAA),NoOp()',
    ' same => n(aaaa),NoOp(${aaaa:1})', ' same => n,NoOp(${AAAA:1:2})',
    ' same => n,NoOp(${LEN(${AAAB})})', ' same => n,Set(i=${INC(AAAB)})',
    ' same => n,NoOp(${AA${BBBB}})', ' same => n,NoOp($[${AAAA} + AAAB])',
    ' same => n,ExecIf($[${AAAB}]?NoOp(${BBBB}):Set(A=${AAAA}))',
    ' same => n,GotoIf(${AAAA}?BBBB,1)', ' same => n,NoOp(${AAAA}${AAAB',
    'exten => s,1,NoOp(${DUPE})', ' same => x,NoOp(${NOT})',
    'exten => s,hint,${HINT}', 'exten => ${EXT},1,NoOp()',
    'include => ${INCL}', '[AAAA]', '[aaab](${T})', 'A = ${IGN}',
    ' same => n,Set(DB(${BBBB})=${AAAA})', ' same => n,${AAAA}(${AAAB})',
    ' same => n,Set(DEC(AAAB)=1)', ' same => n,NoOp(${A-B})',
    ' same => n,Set(ARRAY(AAAA,AAAB)=1)', '#include b.conf',
    'exten => 1,1(AAAB),NoOp(${EXTEN:1})', 'exten => _X.,1(AAAB),NoOp()',
    ' same => n,Originate(${AAAA},app,NoOp,${AAAB})',
    ' same => n,Gosub(s,BBBB(${AAAA},${ARG1}))', ';exten => ${COMM}',
    ' same => n,NoOp(\\${AAAA} \\; ${AAAB}) ; ${COMM}',
    ' same => n,NoOp(${}${:1}${ })', ' same => n,NoOp(${LEN(${AAAA}}))',
    ' same => n,NoOp(${ODBC_AAAA(${AAAB})})', '[globals]',
    ' same => n,NoOp(${CALLERID(num):1})', ' same => n,NoOp(${INC(${AAAA})})',
]
B = (b' same => n(BBBB),NoOp(${AAAA})\n[bbbb]\nexten => s,1,NoOp(${BBBC})\n')


def document(item):
    first, lines = item
    return {
        'a.conf': HEAD + (b'[aaaa]\nexten => s,1,NoOp()\n' if first else
                          b'') + '\n'.join(lines).encode('utf-8') + b'\n',
        'b.conf': B}


def spaces(tier):
    quick = tier == 'quick'

    def sets():
        for n in (0, 1, 2):
            for names in itertools.combinations(POOL, n):
                for kinds in itertools.product(KINDS, repeat=n):
                    yield tuple(zip(kinds, names))
        for name in POOL:
            yield tuple((kind, name) for kind in KINDS)
        for n in (3,) if quick else (3, 4):
            for k, names in enumerate(itertools.combinations(POOL, n)):
                if n == 3 and not quick:
                    for kinds in itertools.product(KINDS, repeat=n):
                        yield tuple(zip(kinds, names))
                else:
                    yield tuple((KINDS[(k + i) % 3], name)
                                for i, name in enumerate(names))

    def words():
        # The contexts, all of them.
        short = [''.join(i) for i in itertools.product('ab', repeat=4)]
        mixed = [''.join(i) for i in itertools.product('aA', repeat=4)]
        few = [''.join(i) for n in (3, 4, 5) for i in itertools.product(
            'ab', repeat=n) if n == 4 or i[0] == 'a' and i[-1] == 'b']
        for pool, n in ((short, 3 if quick else 4), (mixed, 2),
                        (mixed, 3), (few, 2), (few, 3)):
            if quick and n == 3 and pool is not short:
                continue
            for names in itertools.combinations(pool, n):
                yield tuple(('context', name) for name in names)

    def lines():
        for seq in sequences(LINES, 2):
            yield True, seq
        for line in LINES:
            yield False, (line,)
        if not quick:
            for seq in sequences(LINES, 3, 3):
                yield True, seq
        yield True, tuple(LINES)
        yield True, tuple(reversed(LINES))

    document_ = ('[general]', '[aaaa]', 'exten => s,1(bbbb),NoOp(${cccc:1})',
                 'same => n,Set(dddd=${INC(eeee)})', 'same => n(abab),NoOp')

    def edit_items():
        for seq in near_documents(document_, NEAR if not quick else (
                ' "$%()+,-:;=[]_{}aAbZ09\xdf\xe9\u0130')):
            yield seq

    return [
        ScanSpace('edits', 'all single edits of a dialplan of %d lines'
                  % len(document_), edit_items, lambda lines: {
                      'a.conf': '\n'.join(lines + ('',)).encode('utf-8')}),
        ScanSpace('lines', 'all documents of up to {} of {} lines, with a '
                  'second file'.format(2 if quick else 3, len(LINES)), lines,
                  document),
        ScanSpace('sets', 'all sets of up to {} of {} identifiers, as '
                  'contexts, labels and variables'.format(
                      3 if quick else 4, len(POOL)), sets, place),
        ScanSpace('words', 'all sets of up to {} words over two letters or '
                  'one letter in two cases'.format(3 if quick else 4), words,
                  place),
    ]
