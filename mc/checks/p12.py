"""
P12: the splitting and validation of arguments. The splitter of Asterisk,
and the calls that use it, against a reference on tokens.
"""
import itertools

from mc import impl
from mc.checks.applines import check_apps, chunks, joined, near_space
from mc.core import FnSpace, Violation, sequences
from mc.ref import apps as ref

from asterisklint.app.base import AppBase
from asterisklint.variable import Var
from asterisklint.varfun import VarLoader

ASSUMPTIONS = [
    'arguments are checked for Goto, GotoIf, GotoIfTime, Gosub, GosubIf, '
    'ExecIf, ExecIfTime, VoiceMail, Milliwatt and Originate: the ones that '
    'asterisklint has a signature for',
]
IDS = ref.ARGUMENT_IDS


def flat(arg):
    return tuple(('sub', str(i)) if isinstance(i, Var) else i for i in arg)


def check_split(item, st):
    text, delim = item
    tokens = ref.Model().parse(text)
    data = VarLoader().parse_variables(text, impl.HERE)
    for remove in (True, False):
        want = [tuple(i if isinstance(i, str) else ('sub', i.text)
                      for i in arg)
                for arg in ref.split(tokens, delim, remove)]
        got = [flat(i) for i in AppBase.separate_args(
            data, delim, remove)]
        if got != want:
            raise Violation('%r is split differently by %r (%sremoving '
                            'quotes)' % (text, delim,
                                         '' if remove else 'not '),
                            want, got, text)
        st.step((delim, tuple(len(i) for i in want)))
    st.outcome((delim, tuple(want)), len(want) > 1)


NESTED = [
    'NoOp()', 'NoOp', 'Goto()', 'Goto(a,1,1,1)', 'Goto(1|2)', 'Gosub()',
    'gosub(a,b,c,d)', 'Gosub(1(a,b,c,d))', 'GotoIf(1?2)', 'GotoIf(${V}?3)',
    'GotoIf(${V},3)', 'GosubIf(?3)', 'GosubIf(${V}?1\\,2\\,3\\,4)',
    'GosubIf()', 'VoiceMail(,x)', 'VoiceMail()', 'VoiceMail(a,uu)',
    'Milliwatt(x)', 'Originate(a,b)', 'Originate(a,b,c)', 'ExecIf(${V}?a)',
    'ExecIf(1?Goto())', 'ExecIf(?ExecIf(?Goto()))', 'Playback(a,b,c,d,e)',
    'ExecIfTime()', 'ExecIfTime(a?b?c)', 'GotoIfTime(,)', '${V}', '',
    'Originate("a,b",app,c|d)', 'Nope(a?b)', 'Goto', 'Milliwatt(${V}${V})']


def spaces(tier):
    quick = tier == 'quick'
    d = 0 if quick else 1
    chars = [',', '"', '\\', '(', ')', '[', ']', 'a', ' ', '${V}',
             '$[1,2]']
    few = [',', '"', '\\', '(', ')', '${CUT(a,1)}']
    delims = [',', '?', ':', '|', '"', '=', '&', '(', 'a']

    def split_items():
        for seq in sequences(chars, 5 + d):
            yield ''.join(seq), ','
        for seq in sequences(few, 7 + d, 6):
            yield ''.join(seq), ','

    def delim_items():
        for delim in delims[1:]:
            alphabet = ['"', '\\', '(', ')', '[', ']', ',', 'b', '$[?:|]']
            if delim not in alphabet:
                alphabet.insert(0, delim)
            for seq in sequences(alphabet, 4 + d):
                yield ''.join(seq), delim

    def long_split_items():
        for n in (10, 100, 1000):
            for unit in (',', 'a,', '"a,"', '\\,', '(,', '),', '[(,)],',
                         '${V},', '"', '\\', '$[,],', '"\\",'):
                for tail in ('', ',', 'a', '"', '))))))))))),b'):
                    for delim in (',', '"'):
                        yield unit * n + tail, delim

    def conditional_lines():
        for app in ref.CONDITIONAL:
            for text in joined(sequences(
                    ['?', ':', ',', '${V}', '1', ' ', '('], 5 + d)):
                yield '%s(%s)' % (app, text)
        for app in ('GotoIf', 'ExecIf', 'GosubIf', 'ExecIfTime'):
            for text in joined(sequences(
                    ['?', '\\', '"', '$[1]', ':', ')'], 5 + d)):
                yield '%s(%s)' % (app, text)

    def destination_lines():
        alphabet = [',', 'a', '${V}', '"', '\\', '(', ')', ':']
        for app in ('GotoIf', 'GosubIf'):
            for text in joined(sequences(alphabet, 4 + d)):
                yield '%s(${V}?a,b%s)' % (app, text)
                yield '%s(${V}?:%s,a,b)' % (app, text)

    def argument_lines():
        alphabet = [',', 'a', '${V}', '|', '"', '(', ')', '\\']
        for app in sorted(ref.PLAIN):
            for text in joined(sequences(alphabet, 5 + d)):
                yield '%s(%s)' % (app, text)
            for text in joined(sequences(
                    ['|', '${CUT(a,|,1)}', '$[1|2]', '${A|B}', ',', '1'],
                    4 + d)):
                yield '%s(%s)' % (app, text)

    def option_lines():
        alphabet = list('bgsU') + ['x', '(3)', '${V}', ' ', '"', '\xe9']
        for text in joined(sequences(alphabet, 4 + d)):
            yield 'VoiceMail(1,%s)' % text
        for text in joined(sequences(
                ['(', ')', 'u', 'g', '${V}', '\\', ',', '5'], 6 + d)):
            yield 'VoiceMail(1,%s)' % text
        for text in joined(sequences(
                ['o', 'O', '${V}', ' ', '"o"', 'x', '$[o]'], 4 + d)):
            yield 'Milliwatt(%s)' % text
        for c in map(chr, itertools.chain(range(32, 127), (233, 8364))):
            if c != ';':
                for app in ('VoiceMail(1,%s)', 'VoiceMail(1,u%s)',
                            'VoiceMail(1,%su%s)', 'Milliwatt(%s)',
                            'Milliwatt(o%s)'):
                    yield app.replace('%s', c)
        for kind in ('app', 'exten', 'App', 'apps', 'ap', '', ' app',
                     '"app"', '${V}', 'a${V}', '$[1]', 'app|exten', '1'):
            for head in ('', 'a', 'a b', '${V}', '(a,b)', '"a', '\\,'):
                for tail in ('', ',c', ',c,d,e,f', ',c,d,e,f,g', ',,,,,'):
                    yield 'Originate(%s,%s%s)' % (head, kind, tail)

    def nested_lines():
        for a in NESTED:
            for b in NESTED:
                yield 'ExecIf(${V}?%s:%s)' % (a, b)
                yield 'ExecIf(${V}?%s:%s:1)' % (a, b)
                yield 'ExecIf(${V}?ExecIf(${V}?%s:%s):%s)' % (a, b, a)
                yield 'ExecIf(${V}?"%s":"%s")' % (a, b)

    def nested_cases():
        for a in NESTED:
            for name in ('ExecIf', 'execif', 'EXECIF', 'ExecIfTime',
                         ' ExecIf', 'GotoIf', 'GosubIf', 'TryExec'):
                for cond in ('', '1', '${V}', '$[1]', '${V}1', ' ',
                             '${V}${V}', '"${V}"', '\\${V}', '(${V}', '"',
                             '${V} ${V}', '\t${V} '):
                    yield '%s(%s?%s)' % (name, cond, a)
                    yield '%s(%s?:%s' % (name, cond, a)
                    yield '%s(%s,%s)' % (name, cond, a)

    def long_lines():
        for n in (10, 100, 1000):
            for app in sorted(ref.PLAIN) + list(ref.CONDITIONAL):
                yield '%s(%s)' % (app, ','.join(['a'] * n))
                yield '%s(%s)' % (app, ',' * n)
                yield '%s(%s)' % (app, '|' * n)
                yield '%s(${V}?%s)' % (app, ','.join(['a'] * n))
                yield '%s(${V}?%s)' % (app, ':' * n)
                yield '%s(${V}%s)' % (app, '?a' * n)
                yield '%s(1,%s)' % (app, 'u' * n)
                yield '%s(%s,1)' % (app, '(' * n)
        for n in (5, 20, 60):
            yield 'ExecIf(${V}?' * n + 'Goto()' + ')' * n
            yield 'ExecIf(?' * n + 'Goto' + ')' * n
            yield 'ExecIf(${V}?NoOp():' * n + 'Milliwatt(oo)' + ')' * n

    def lines(name, bound, items):
        return FnSpace(name, bound, lambda: chunks(items()),
                       lambda texts, st: check_apps(texts, IDS, st))

    return [
        FnSpace('split', 'all token strings of up to %d out of %r, and up to '
                '%d out of %r, with and without removal of quotes'
                % (5 + d, chars, 7 + d, few), split_items, check_split),
        FnSpace('delimiters', 'all token strings of up to %d for each of the '
                'delimiters %r' % (4 + d, delims[1:]), delim_items,
                check_split),
        FnSpace('long-split', 'repetitions of up to 1000', long_split_items,
                check_split),
        lines('conditionals', '5 conditional applications x all token '
              'strings of up to %d' % (5 + d), conditional_lines),
        lines('destinations', 'GotoIf and GosubIf x all destinations of up '
              'to %d tokens' % (4 + d), destination_lines),
        lines('arguments', '%d applications x all token strings of up to %d '
              'tokens' % (len(ref.PLAIN), 5 + d), argument_lines),
        lines('options', 'all option strings of up to %d letters; and every '
              'character' % (4 + d), option_lines),
        lines('nested', 'all pairs of %d calls inside of ExecIf'
              % len(NESTED), nested_lines),
        lines('conditions', '%d calls x conditions x applications'
              % len(NESTED), nested_cases),
        lines('long', 'up to 1000 arguments, options, nested parentheses; up '
              'to 60 nested ExecIf', long_lines),
        near_space(IDS, deep=not quick),
    ]
