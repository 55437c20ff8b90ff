"""
P15: the applications of the version, by name, case and form of the call.
"""
import functools
import itertools

from mc import impl
from mc.checks.applines import check_apps, chunks, joined, near_space
from mc.core import FnSpace, sequences
from mc.ref import apps as ref

ASSUMPTIONS = [
    'the applications per version are those of the pinned commit '
    '(mc/ref/tables.json)',
    'the name "Unknown" is left out: the test suite has it as an existing '
    'application',
    'names outside of ASCII are not compared with an application that '
    'python thinks is the same in lower case (as the Kelvin sign)',
]
IDS = ref.NAME_IDS | {'E_APP_PARSE_ERROR'}
VERSIONS = ('v11', 'v13')


def names_of(version):
    return sorted(name for names in ref.TABLES[version]['apps'].values()
                  for name in names if name != 'Unknown')


ALL = sorted(set(names_of('v11') + names_of('v13') + names_of('vall')))


def flips(name, n):
    """All names with up to n letters in the other case."""
    for k in range(n + 1):
        for pos in itertools.combinations(range(len(name)), k):
            yield ''.join(c.swapcase() if i in pos else c
                          for i, c in enumerate(name))


def variants(name, n):
    seen = set()
    for other in itertools.chain(
            flips(name, n),
            (name.upper(), name.lower(), name.swapcase(), name.title(),
             name.capitalize()),
            flips(name.upper(), 1), flips(name.lower(), 1)):
        if other not in seen:
            seen.add(other)
            yield other


def near(name):
    """Names that look like it."""
    for i in range(len(name)):
        yield name[:i] + name[i + 1:]
        yield name[:i] + name[i] + name[i:]
        yield name[:i] + name[i + 1:i + 2] + name[i] + name[i + 2:]
        for c in 'xX0_-. ':
            yield name[:i] + c + name[i + 1:]
            yield name[:i] + c + name[i:]
    for tail in ('s', '2', '_', '-', '.', "'", 'If', 'IfTime', '\xe9', '|',
                 '/', '"', '\xa0', ','):
        yield name + tail
        yield tail + name
    yield name + name


DECORATIONS = (
    '%s', '%s(', '%s)', '%s()', '%s(a', '%s((a)', '%s (a)', ' %s(a)',
    '\t%s(a)', '%s\t(a)', '\x0b%s()', '\xa0%s()', '  %s  (a)', ' %s', '%s (',
    '%s()()', '%s() a', '%s[a]', '%s{a}', '%s,a', '%s|a', '%s:a', '%s?a',
    '"%s"(a)', '"%s(a)"', '(%s)', '(%s', '%s(${V})', '${V}%s()', '%s${V}()',
    '%s ${V}()', '$[1]%s', '%s(%s())', '%s,%s()', '%s=%s()', '=%s()',
    '%s\\(a)', '\\%s()', "'%s'()", '%s\x0c()', '%s(${a', '${%s()}',
    '${%s}()', '$%s()', '-%s()', '%s\xa0()',
    'ExecIf(${V}?%s())', 'ExecIf(${V}?%s(a):%s(a))', 'ExecIf(${V}?%s:%s)',
    'ExecIf(${V}? %s():%s ())', 'ExecIf(${V}?:%s())', 'ExecIf(${V}?%s(a',
    'ExecIf(${V}?%s(a)', 'ExecIf(${V},%s,a)', 'ExecIf(${V}?${V}():%s())',
    'ExecIf(${V}?%s(${V}):%s (${V}))', 'ExecIf(${V}?%s(${a)',
    'ExecIf(${V}?ExecIf(${W}?%s():NoOp):%s(a))', 'ExecIf(?%s)',
    'execif(${V}?%s())', 'ExecIf(1?%s()', 'ExecIf(${V}?"%s()")',
    'ExecIf(${V}?ExecIf(?ExecIf(?%s)))', 'GotoIf(${V}?%s())',
    'TryExec(%s())', 'ExecIf (1?%s())', 'ExecIfTime(*?%s())',
    'Exec(%s())', 'NoOp(%s())', 'Macro(%s)')


def spaces(tier):
    quick = tier == 'quick'
    n = 3 if quick else 5
    ret = []

    def usable(texts):
        return (i for i in texts if i.strip().rstrip('()') != 'Unknown' and
                i.rstrip(' \t') == i and 'unknown' not in i.lower())

    def add(name, version, bound, items, size=250):
        ret.append(FnSpace(
            '%s-%s' % (name, version), bound,
            lambda: chunks(usable(items()), size),
            lambda texts, st: check_apps(texts, IDS, st, version),
            setup_worker=functools.partial(impl.set_version, version)))

    def case_lines():
        for name in ALL:
            for other in variants(name, n):
                yield other + '(a)'
            for other in variants(name, 1):
                yield 'ExecIf(${V}?%s(a):%s())' % (other, name)
                yield 'ExecIf(${V}?%s(a):%s(${V}))' % (name, other)

    def near_lines():
        for name in ALL:
            for other in near(name):
                yield other + '(a)'
                yield 'ExecIf(${V}?%s(a))' % other

    def form_lines():
        for form in DECORATIONS:
            for name in ALL + ['Nope', 'noop', 'NOOP', 'a', 'dial', '1',
                               '\xe9', '-', '']:
                yield form.replace('%s', name)

    def token_lines():
        alphabet = ['NoOp', 'noop', 'Wait', 'a', ' ', '(', ')', '${V}', ',',
                    '\t', 'ExecIf(1?', ':']
        for text in joined(sequences(alphabet, 4 if quick else 5)):
            yield text
        for text in joined(sequences(
                ['ExecIf(${V}?', 'wait', ' ', '(', ')', '${V}', ':'],
                6 if quick else 7)):
            yield text

    def background_docs():
        alphabet = ['Background(a)', 'BackGround(a)', 'background(a)',
                    'BACKGROUND', 'Wait(1)', ' BackGround(a)',
                    'ExecIf(${V}?BackGround(a):Background(a))']
        for seq in sequences(alphabet, 5 if quick else 6, 1):
            yield seq

    for version in VERSIONS:
        add('cases', version, '%d applications x all spellings with up to %d '
            'letters in the other case, and the usual ones'
            % (len(ALL), n), case_lines)
        add('forms', version, '%d applications and other names x %d forms '
            'of the call' % (len(ALL), len(DECORATIONS)), form_lines)
    add('near', 'v13', 'all names at one edit of an application, for %d '
        'applications' % len(ALL), near_lines)
    if not quick:
        add('near', 'v11', 'all names at one edit of an application, for %d '
            'applications' % len(ALL), near_lines)
        add('forms', 'vall', 'all forms of the call', form_lines)
    add('tokens', 'v13', 'all token strings', token_lines)
    ret.append(FnSpace(
        'background', 'all documents of up to %d lines with the spellings of '
        'Background' % (5 if quick else 6), background_docs,
        lambda texts, st: check_apps(texts, IDS, st)))
    for version in VERSIONS:
        space = near_space(
            IDS, version, deep=not quick,
            setup_worker=functools.partial(impl.set_version, version))
        space.name += '-' + version
        ret.append(space)
    return ret
