"""
P16: function calls, by name, case, position and form.
"""
import functools

from mc import impl
from mc.checks.applines import check_apps, chunks, joined, near_space
from mc.checks.p15 import VERSIONS, near, variants
from mc.core import FnSpace, sequences
from mc.ref import apps as ref

ASSUMPTIONS = [
    'the functions per version are those of the pinned commit '
    '(mc/ref/tables.json)',
    'a slice after a function call is held to the rules of slices after '
    'variables; anything before it is reported as a tail as well',
    'names are ASCII',
]
IDS = ref.FUNCTION_IDS | {'E_APP_PARSE_ERROR'}

ALL = sorted(set(
    name for version in ('v11', 'v13', 'vall')
    for names in ref.TABLES[version]['funcs'].values() for name in names))

READ = (
    'NoOp(${%s(a)})', 'Set(X=${%s(a)})', 'NoOp(${LEN(${%s(a)})})',
    'NoOp($[${%s(a)}])', 'ExecIf(${V}?NoOp(${%s(a)}))',
    'ExecIf(${%s(a)}?NoOp(${%s(b)}):Set(A=${%s(c)}))',
    'Set(CUT(${%s(a)})=1)', 'Goto(${%s(a)},1)', 'NoOp(${${%s(a)}})',
    'NoOp(${%s(a):1})', 'NoOp(${X:${%s(a)}})', 'Nope(${%s(a)}',
    'NoOp(${%s(${%s(a)})})', 'GotoIf($[${%s(a)}=1]?a:b)',
    'NoOp(${INC(${%s(a)})})')
WRITE = (
    'Set(%s(a)=1)', 'Set(%s(a)=${%s(b)})', 'NoOp(${SET(%s(a)=1)})',
    'ExecIf(${V}?Set(%s(a)=1))', 'ExecIf(${V}?Set(A=1):Set(%s(a)=${V}))',
    'Set(%s(${%s(a)})=1)', 'NoOp(${SET(%s(a)=${%s(b)})})',
    'Set(SET(%s(a)=1)=2)', 'set(%s(a)=1)')
FORMS = READ + WRITE + (
    'NoOp(${%s()})', 'NoOp(${%s(})', 'NoOp(${%s)})', 'NoOp(${%s})',
    'NoOp(${%s(a})', 'NoOp(${%s(a)b})', 'NoOp(${%s(a)b:1})',
    'NoOp(${%s(a):})', 'NoOp(${%s(a):0})', 'NoOp(${%s(a):1:2})',
    'NoOp(${%s(a):1:2:3})', 'NoOp(${%s(a) })', 'NoOp(${%s (a)})',
    'NoOp(${ %s(a)})', 'NoOp(${%s(a)(b)})', 'NoOp(${%s(a))})',
    'NoOp(${%s((a)})', 'NoOp(${%s(a):${V}})', 'NoOp(${%s(a)${V}})',
    'NoOp(${%s${V}(a)})', 'NoOp(${${V}%s(a)})', 'NoOp(${V}(%s(a)))',
    'NoOp(%s(a))', 'NoOp(${%s(a)', 'NoOp($[%s(a)])', 'NoOp($%s(a))',
    'NoOp(${%s(${V})})', 'NoOp(${%s(${V}})', 'NoOp(${%s:1(a)})',
    'NoOp(${(%s(a)})', 'NoOp(${%s(a=b)})', 'NoOp(${%s(SET(a=b))})',
    'NoOp(${%s(MixMonitor)})', 'NoOp(${%s(mixmonitor)})',
    'NoOp(${%s(a b)})', 'NoOp(${%s(a-b):-1:1})', 'NoOp(${%s(")})',
    'Set(%s=1)', 'Set(%s()=1)', 'Set(%s(=1)', 'Set(%s)=1)', 'Set(%s(a=1)',
    'Set(%s(a))', 'Set(%s(a)', 'Set( %s(a)=1)', 'Set(%s (a)=1)',
    'Set(%s(a) =1)', 'Set(%s(a b)=1)', 'Set(%s(a=b)=1)', 'Set(%s(a)b=1)',
    'Set(%s(a)(b)=1)', 'Set(${%s}(a)=1)', 'Set(${%s(a)}=1)',
    'Set(${V}%s(a)=1)', 'Set(%s${V}(a)=1)', 'Set(%s(${V})=1)',
    'Set(%s(a):1=1)', 'Set(=%s(a))', 'Set(__%s(a)=1)', 'Set(%s((a)=1)',
    'Set(%s(${V}=1)', 'Set(%s(MixMonitor)=y)', 'Set(%s(x)=y)',
    'Set(%s($[1=1])=2)', 'MSet(%s(a)=1)', 'Set(%s(a)==1)', 'Set(%s(a)=)',
    'SetGlobalVar(%s(a)=1)')


def spaces(tier):
    quick = tier == 'quick'
    n = 2 if quick else 4
    d = 0 if quick else 1
    ret = []

    def usable(texts):
        return (i for i in texts if i.rstrip(' \t') == i and ';' not in i)

    def add(name, version, bound, items, size=250):
        ret.append(FnSpace(
            '%s-%s' % (name, version), bound,
            lambda: chunks(usable(items()), size),
            lambda texts, st: check_apps(texts, IDS, st, version),
            setup_worker=functools.partial(impl.set_version, version)))

    def case_lines():
        for name in ALL:
            for other in variants(name, n):
                yield 'NoOp(${%s(a)})' % other
                yield 'Set(%s(a)=1)' % other
            for other in variants(name, 1):
                for form in READ + WRITE:
                    yield form.replace('%s', other)

    def near_lines():
        for name in ALL:
            for other in near(name):
                yield 'NoOp(${%s(a)})' % other
                yield 'Set(%s(a)=1)' % other

    def form_lines():
        for form in FORMS:
            for name in ALL + ['', 'NOPE', 'len', 'Set', 'set', 'inc', 'a',
                               'unknown', 'Unknown', 'ODBC_X', '1',
                               '__CUT', '\xe9', ' ']:
                yield form.replace('%s', name)

    def two_lines():
        # A form in a form.
        inner = ['${%s(a)}', '${%s(a', '${%s(a)b}', '${%s(a):}',
                 '${%s(}', '${${V}(%s)}', 'SET(%s(a)=1)', '%s(a)', '${%s}',
                 '${SET(%s=1)}', '${SET(%s)}', '${SET()}', 'a=${%s(b)}',
                 '$[%s(a)=1]', 'a b', '${INC(%s)}', '${INC(${%s})}',
                 '${inc(%s-%s)}']
        for form in FORMS:
            for one in inner:
                for name in ('CUT', 'cut', 'NOPE', 'SET', 'DEC'):
                    for fname in ('LEN', 'SET', 'AUDIOHOOK_INHERIT',
                                  'DEC', 'nope', one.replace('%s', name)):
                        a, b = form.split('%s', 1)
                        yield (a + fname + b).replace(
                            '(a', '(' + one.replace('%s', name)).replace(
                                '%s', fname)

    def token_lines():
        alphabet = ['${', '}', 'CUT(', 'cut(', ')', ':', '1', '${V}', 'a']
        for text in joined(sequences(alphabet, 5 + d)):
            yield 'NoOp(%s)' % text
        for text in joined(sequences(
                ['CUT', '(', ')', ':', '1', '${V}', 'a'], 5 + d)):
            yield 'NoOp(${%s})' % text

    def assignment_lines():
        alphabet = ['=', ' ', 'CUT(', 'nope(', ')', 'a', '${V}', '$[b=1 ]',
                    '${cut(=)}']
        for text in joined(sequences(alphabet, 4 + d)):
            yield 'Set(%s)' % text
            yield 'NoOp(${SET(%s)})' % text
        for text in joined(sequences(['=', ' ', 'CUT(', ')', 'a'], 6 + d)):
            yield 'Set(%s)' % text

    def audiohook_lines():
        for word in ref.AUDIOHOOKS + (
                '', 'x', 'Mute,', 'mute', 'MUTE', '${V}', 'Mute${V}',
                ' Mute', '"Mute"', 'MixMonitor,Mute', 'mixmonitor',
                'ChanSpy', 'Muted', 'Pitch_Shift', 'jack_hook'):
            for name in ('AUDIOHOOK_INHERIT', 'audiohook_inherit',
                         'AUDIOHOOK', 'Audiohook_Inherit'):
                yield 'Set(%s(%s)=yes)' % (name, word)
                yield 'NoOp(${%s(%s)})' % (name, word)
                yield 'NoOp(${SET(%s(%s)=yes)})' % (name, word)
                yield 'ExecIf(${V}?Set(%s(%s)=yes))' % (name, word)

    def long_lines():
        for k in (5, 50, 99, 100, 101, 300):
            for name in ('CUT', 'cut', 'NOPE'):
                yield 'NoOp(%sa%s)' % (('${%s(' % name) * k, ')}' * k)
                yield 'NoOp(%sa%s)' % (('${%s(' % name) * k, ')}' * (k - 1))
                yield 'NoOp(%sa%s)' % (('${%s(' % name) * k, '}' * k)
                yield 'NoOp(%s)' % (('${%s(a)}' % name) * k)
                yield 'Set(%sa%s=1)' % (('%s(' % name) * k, ')' * k)
                yield 'Set(%s(%s)=1)' % (name, 'a' * k)
                yield 'NoOp(%s)' % ('${%s(a)b}' % name * k)
                yield 'NoOp(%sa%s)' % (('${SET(%s(' % name) * k,
                                       ')=1)}' * k)
        # As two sites with different names that may be remembered.
        for k in (1, 2, 3):
            for i in range(6):
                yield 'NoOp(${%s(a)})' % ['len', 'LEN', 'Len', 'LEM', 'lem',
                                          'LEN'][(i * k) % 6]

    for version in VERSIONS:
        add('cases', version, '%d functions x all spellings with up to %d '
            'letters in the other case, and the usual ones, read and '
            'written; and with 1 in %d positions'
            % (len(ALL), n, len(READ + WRITE)), case_lines)
        add('forms', version, '%d functions and other names x %d forms '
            'of the call' % (len(ALL), len(FORMS)), form_lines)
    add('near', 'v13', 'all names at one edit of a function, for %d '
        'functions' % len(ALL), near_lines)
    if not quick:
        add('near', 'v11', 'all names at one edit of a function', near_lines)
        add('forms', 'vall', 'all forms of the call', form_lines)
    add('nested', 'v13', '%d forms x inner forms x names' % len(FORMS),
        two_lines)
    add('tokens', 'v13', 'all token strings of up to %d' % (5 + d),
        token_lines)
    add('assignments', 'v13', 'all assignments of up to %d tokens' % (4 + d),
        assignment_lines)
    add('audiohooks', 'v13', 'all words for AUDIOHOOK_INHERIT',
        audiohook_lines)
    add('long', 'v13', 'nesting and repetition up to 300', long_lines)
    for version in VERSIONS:
        space = near_space(
            IDS, version, deep=not quick,
            setup_worker=functools.partial(impl.set_version, version))
        space.name += '-' + version
        ret.append(space)
    return ret
