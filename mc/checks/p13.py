"""
P13: the balance of quotes, parentheses, braces and brackets. A stack
machine on tokens against the reports for applications and functions.
"""
from mc.checks.applines import check_apps, chunks, joined, near_space
from mc.core import FnSpace, sequences
from mc.ref import apps as ref

ASSUMPTIONS = [
    'the applications that have their arguments split (Goto, Gosub, their '
    '-If variants, ExecIf, ExecIfTime, GotoIfTime, VoiceMail, Milliwatt, '
    'Originate) are not looked at as a whole; the arguments of a subroutine '
    'and the nested applications are',
    'the parenthesis that ends the line is the one of the application',
]
IDS = ref.BALANCE_IDS
FORMS = (
    'NoOp(%s)', 'NoOp(%s', 'Set(X=%s)', 'Playback(${CUT(%s)})',
    'Set(CUT(%s)=${V})', 'NoOp($[%s])', 'ExecIf(${V}?NoOp(%s))',
    'ExecIf(${V}?Set(CUT(%s)=1):NoOp(${LEN(%s)}%s))', 'NoOp(a${V}%s,$[1])',
    'Gosub(a,b,1(%s))', 'Gosub(1(%s)', 'GosubIf(${V}?1(%s):2(%s)',
    'Goto(%s)', 'GotoIf(${V}?%s)', 'VoiceMail(%s)', 'Nope(%s)', 'noop(%s)',
    'NoOp(${NOPE(%s)})', 'NoOp(${ODBC_X(%s)}%s)', 'NoOp(${CUT(${LEN(%s)})})',
    'NoOp(${SET(x=%s)})', 'NoOp(${INC(%s)})', 'NoOp(${${V}(%s)})',
    'NoOp(${CUT(%s):1})', 'Set(%s)', 'NoOp ( %s)', 'ExecIf(%s)')


def spaces(tier):
    quick = tier == 'quick'
    d = 0 if quick else 1
    everything = ['"', "'", '(', ')', '[', ']', '{', '}', 'a', '${V}',
                  '$[(]', '\\', '|', '${CUT(")}']

    def all_strings():
        for text in joined(sequences(everything[:11], 5 + d)):
            yield 'NoOp(%s)' % text
        for text in joined(sequences(everything, 4 + d)):
            yield 'Playback(%s)' % text
            yield 'Set(X=%s)' % text

    def deep_strings():
        for kinds in ('()"', '[]\'', '{}"', '()[]', '([)]', '(){}', '"\'(',
                      '"\')', '[]{}', '"\''):
            n = {2: 11, 3: 8, 4: 6}[len(kinds)] + d
            for text in joined(sequences(kinds, n)):
                yield 'NoOp(%s)' % text

    def form_strings():
        alphabet = ['"', "'", '(', ')', '[', '}', '{', ']', 'a,', '${V}']
        for text in joined(sequences(alphabet, 3 + d)):
            for form in FORMS:
                yield form.replace('%s', text)

    def long_strings():
        for n in (10, 100, 1000):
            for left, right in ('()', '[]', '{}', '""', "''", ('([', ')]'),
                                ('[{(', ')}]'), ('"(', ')"'), ('("', '")'),
                                ('(\'"\'', ')'), ('[${V}', '$[1]]')):
                for l, r in ((n, n), (n, n - 1), (n - 1, n)):
                    for form in ('NoOp(%s)', 'Set(X=%s)',
                                 'ExecIf(${V}?Wait(%s))',
                                 'NoOp(${CUT(%s)})'):
                        yield form % (left * l + right * r)
                        yield form % (left * l + 'a' + right * r + left)
                        yield form % ((left + right) * l)

    def many_on_a_line():
        # Every one of them is reported, on the line it is on.
        parts = ['${CUT(%s)}' % i for i in ('(', '()', '"', "'", '["]', ')',
                                            '{[}', '1')]
        for seq in sequences(parts, 3 + d):
            for tail in ('', '(', "'"):
                yield 'NoOp(%s%s)' % (''.join(seq), tail)

    def lines(name, bound, items):
        return FnSpace(name, bound, lambda: chunks(items()),
                       lambda texts, st: check_apps(texts, IDS, st))

    return [
        lines('strings', 'all strings of up to %d tokens out of %r, up to %d '
              'out of %r' % (5 + d, everything[:11], 4 + d, everything),
              all_strings),
        lines('deep', 'all strings of up to %d characters over subsets of '
              'the brackets and quotes' % (11 + d), deep_strings),
        lines('forms', '%d places for it x all strings of up to %d tokens'
              % (len(FORMS), 3 + d), form_strings),
        lines('several', 'all sequences of up to %d function calls in a '
              'line' % (3 + d), many_on_a_line),
        lines('long', 'nesting and repetition of up to 1000', long_strings),
        near_space(IDS, deep=not quick),
    ]
