"""
P14: substitutions. What is recognised, what is said about it, how it looks
as text again and what it would be with values.
"""
import re

from mc import impl
from mc.checks.applines import check_apps, chunks, joined, near_space
from mc.core import FnSpace, Violation, sequences
from mc.ref import apps as ref

from asterisklint.variable import Var
from asterisklint.varfun import VarLoader

ASSUMPTIONS = [
    'a number in a slice may come out without its leading zeros, and without what is '
    'beyond 30 characters',
    'the values of functions and expressions are not known: those are not '
    'evaluated',
    'the values that are used for offsets and lengths are numbers or no '
    'numbers at all (what scanf would do for "3x" is left out)',
]
IDS = ref.VARIABLE_IDS
NUMBERS = re.compile(r'\A-?[0-9]+\Z')


def show(tokens):
    """
    The text, with numbers in slices the way they are normally written.
    """
    if tokens is None:
        return ''
    ret = []
    for tok in tokens:
        if isinstance(tok, str):
            ret.append(tok)
        else:
            ret.append(show_sub(tok))
    return ''.join(ret)


def show_sub(sub):
    if sub.kind == 'expr':
        return '$[%s]' % show(sub.inner)
    if sub.kind == 'func':
        head = '%s(%s)' % (show(sub.func), show(sub.args))
    else:
        head = show(sub.name)
    for part in (sub.start, sub.length):
        if part is not None:
            head += ':' + (str(part) if isinstance(part, int)
                           else show(part))
    return '${%s}' % head


# ---- Values

POOL = ['0123456789', 'b', '-2', '', '3', 'a', 'xyz', '-7', '1', 'bb']


def value_of(name, used):
    if name not in used:
        n = sum(ord(c) * (i + 1) for i, c in enumerate(name))
        used[name] = POOL[(n + len(name)) % len(POOL)]
    return used[name]


class Unknown(Exception):
    pass


def evaluate(tokens, used):
    ret = ''
    for tok in tokens:
        if isinstance(tok, str):
            ret += tok
            continue
        if tok.kind != 'var':
            raise Unknown()
        value = value_of(evaluate(tok.name, used), used)
        start, length = [
            as_int(part, used) for part in (tok.start, tok.length)]
        if tok.start is not None and start is not None:
            value = cut(value, start, length)
        ret += value
    return ret


def as_int(part, used):
    if part is None or isinstance(part, int):
        return part
    text = evaluate(part, used)
    if NUMBERS.match(text):
        return int(text[:30])
    if text and not set(text) & set('0123456789+- \t'):
        return None
    if not text:
        return None
    raise Unknown()


def cut(value, start, length):
    """
    The characters that remain: those from the offset (from the end if
    negative), up to the length, or without that many at the end.
    """
    n = len(value)
    if start < 0:
        start = max(0, n + start)
    end = n
    if length is not None:
        end = n + length if length < 0 else min(n, start + length)
    return ''.join(c for i, c in enumerate(value) if start <= i < end)


# ---- The parser itself

def check_parse(text, st):
    model = ref.Model()
    try:
        tokens = model.parse(text)
    except ref.Unclosed:
        tokens = None
    impl.reset()
    try:
        data = VarLoader().parse_variables(text, impl.HERE)
    except ValueError:
        data = None
    if (tokens is None) != (data is None):
        raise Violation(
            '%r is %sclosed' % (text, 'not ' if tokens is None else ''),
            tokens, data and str(data), text)
    want = [(0, id_, sub) for id_, sub in sorted(model.msgs) if id_ in IDS]
    got = [(0,) + i[2:] for i in impl.messages(True) if i[2] in IDS]
    diff = ref.differences(want, got)
    if diff:
        raise Violation('%r is reported differently' % text, diff[1],
                        diff[2], text)
    if tokens is None:
        st.step('unclosed')
        st.outcome('unclosed', True)
        return

    flat = [i if isinstance(i, str) else None for i in data]
    wanted = [i if isinstance(i, str) else None for i in tokens]
    if flat != wanted or any(
            not isinstance(i, (str, Var)) for i in data):
        raise Violation('%r is cut up differently' % text, tokens,
                        list(map(str, data)), text)
    result = tuple(sorted(set(i[0] for i in model.msgs)))
    st.step((tuple(wanted), result))
    if not model.msgs:
        want = show(tokens)
        if str(data) != want:
            raise Violation('%r comes out as something else' % text,
                            want, str(data), text)
        if want != text and not re.search(
                r':(-?0|[-0-9]{31})', text):
            raise Violation('%r comes out as something else' % text,
                            text, want, text)
        for tok, atom in zip(tokens, data):
            if not isinstance(tok, str) and str(atom) != show_sub(tok):
                raise Violation('%r has another part' % text, tok,
                                str(atom), text)
        used = {}
        try:
            want = evaluate(tokens, used)
        except Unknown:
            pass
        else:
            if isinstance(data, Var):
                got = data.format(**used)
                if got != want:
                    raise Violation(
                        '%r has another value' % text, (used, want), got,
                        text)
                result += ('value', want)
    st.outcome((tuple(wanted), result), None in wanted or bool(model.msgs))


def check_slice(item, st):
    """Values for slices: every value, offset and length."""
    template, values = item
    tokens = ref.Model().parse(template)
    impl.reset()
    data = VarLoader().parse_variables(template, impl.HERE)
    want = evaluate(tokens, dict(values))
    got = data.format(**dict(values))
    st.step((template, got))
    if got != want:
        raise Violation('%r has another value' % template, (values, want),
                        got, repr(item))
    st.outcome((template, got), True)


FORMS = (
    'NoOp(%s)', 'NoOp(%s', 'Set(X=%s)', 'Set(%s=1)', 'ExecIf(${V}?NoOp(%s))',
    'ExecIf(%s?NoOp(%s):Wait(%s))', 'Goto(%s)', 'Gosub(x,${Y},%s(%s))',
    'GotoIf(%s?%s:%s)', 'Playback(${CUT(%s)})', 'NoOp(${${V}(%s)})',
    'NoOp(${CUT(a)%s})', 'NoOp(${INC(%s)})', 'NoOp($[%s])', 'NoOp(${%s})',
    'Set(CUT(%s)=%s)', '%s(x)', 'VoiceMail(%s,%s)', 'Nope(%s)',
    'Originate(%s,%s,%s)', 'NoOp(${SET(%s)})', 'NoOp(${X:%s})',
    'NoOp(${%s:1})')


def spaces(tier):
    quick = tier == 'quick'
    d = 0 if quick else 1
    raw = ['$', '{', '}', '[', ']', ':', 'a']
    tokens = ['${', '}', '$[', ']', ':', 'a', '-', '1', '0']
    calls = ['${', '}', '(', ')', ':', 'a', '1', '$[a]']
    slices = ['', '0', '1', '-1', '-0', '01', '-2', '10', '-10', '-', '--1',
              '+1', ' 1', '1 ', 'a', '${a}', '$[1]', '${CUT(a)}', '${a:1}',
              '1a', '\u0663', '\xb2', '999999999999999999999', '-${a}',
              '${a}${a}', '}', '${', '{}', '1.0', '\xe9', '-01', '00']

    def parse_items():
        for n, (alphabet, depth) in enumerate((
                (raw, 7 + d), (tokens, 6 + d), (calls, 6 + d))):
            for text in joined(sequences(alphabet, depth)):
                yield text

    def slice_items():
        for head in ('a', '', 'a b', '${a}', 'CUT(a)', 'CUT(a)x', '${a}(b)',
                     'a${b}', '\xe9', 'a-b', '$[a]'):
            for a in slices:
                yield '${%s:%s}' % (head, a)
                for b in slices:
                    yield '${%s:%s:%s}' % (head, a, b)
                    if head in ('a', 'CUT(a)'):
                        for c in ('', '1', 'a', '${a}'):
                            yield '${%s:%s:%s:%s}' % (head, a, b, c)

    def char_items():
        for c in [chr(i) for i in range(0x01, 0x250)] + [
                '\u0663', '\uff11', '\uff41', '\U0001d7d8']:
            if c in '\n\r':
                continue
            for form in ('${%s}', '${a%s}', '${%sa}', '${a%sb:1}',
                         '${a:%s}', '${a:1%s}', '${a:1:%s}', '$%s',
                         '$%s{a}', '%s${a}', '$[%s]', '${CUT(%s)}',
                         '${a${b}%s}', '${${a%s}}'):
                yield form.replace('%s', c)

    def long_items():
        for n in (10, 50, 99, 100, 101, 102, 250):
            for left, right in (('${', '}'), ('$[', ']'), ('${a', 'b}'),
                                ('{', '}'), ('${X:', '}'), ('${X:1:', '}'),
                                ('${$[', ']}'), ('${F(', ')}'),
                                ('${', ':1}')):
                yield left * n + 'a' + right * n
                yield left * n + 'a' + right * (n - 1)
                yield left * n + 'a' + right * (n + 1)
                yield left * (n - 1) + 'a' + right * n
        for n in (10, 100, 1000):
            for unit in ('${a}', '$', '${', '{', '}', '$[', '${a:1}', '$$',
                         '$[a]', '${}', '${a:}', '${a}b', '$[${a}]', '{}',
                         '${:', ':', '1', '\xe9', '${CUT(a)}'):
                yield unit * n
                yield '${' + unit * n + '}'
                yield '${a:' + unit * n + '}'

    def value_items():
        numbers = range(-6, 7) if quick else range(-12, 13)
        for value in ('', 'a', 'ab', 'abcd', '0123456789'):
            for start in numbers:
                if start:
                    yield '${a:%d}' % start, (('a', value),)
                    yield '-${a:%d}-' % start, (('a', value),)
                yield '${a:${s}}', (('a', value), ('s', str(start)))
                for length in numbers:
                    vals = (('a', value), ('s', str(start)),
                            ('l', str(length)))
                    if length and not (start < 0 and length >= -start):
                        yield '${a:%d:%d}' % (start, length), vals
                        yield '${a:${s}:%d}' % length, vals
                        yield '${${n}:%d:%d}' % (start, length), (
                            ('n', 'a'), ('a', value))
                        yield '${a${n}:%d:%d}' % (start, length), (
                            ('n', 'x'), ('a', 'no'), ('ax', value))
                    yield '${a:${s}:${l}}', vals
                    if start:
                        yield '${a:%d:${l}}' % start, vals
                    if length >= 0:
                        yield '${a:${s:0:5}:${l}}', vals
            for bad in ('', 'x', 'nope'):
                yield '${a:${s}}', (('a', value), ('s', bad))
                yield '${a:${s}:${l}}', (('a', value), ('s', bad),
                                         ('l', '2'))
                yield '${a:${s}:${l}}', (('a', value), ('s', '2'),
                                         ('l', bad))
                yield '${a:1:${l}}', (('a', value), ('l', bad))

    def line_items():
        for text in joined(sequences(tokens, 4 + d)):
            yield 'NoOp(%s)' % text
            yield 'Set(A=${%s})' % text

    def form_items():
        texts = ['${a}', '${a', '${}', '${a-b}', '${a:0}', '${a:1}', '${a:}',
                 '${a:1:0}', '${a:1:2:3}', '${a:x}', '${a:1:x}', '${a:-1:1}',
                 '${a:0:0}', '$[a', '$[${a:}]', '${${a:x}}', '$', '${a}}',
                 '${${a b}}', '${${a}b c}', '${a-b:0}', '${a-b', '{${a:}',
                 '${a:${b:0}}', '${a:x}${a:x}', '${a:x}${b', '${b${a:x}',
                 '', 'a', '\\${a', '\\${a:x}', '"${a:x}"', '${a:\u0663}',
                 '${ARG1}', '${\xe9}', '${a:${b}:0}', '${CUT(${a:x})',
                 '$[${a]}', '${a[}', '$[{]', '$[}]', '${]}', '$ {a:x}']
        for form in FORMS:
            for text in texts:
                yield form.replace('%s', text)
            for a in texts:
                for b in texts:
                    yield form.replace('%s', a + b)

    def lines(name, bound, items):
        return FnSpace(name, bound, lambda: chunks(items()),
                       lambda texts, st: check_apps(texts, IDS, st))

    return [
        FnSpace('strings', 'all token strings: up to %d of %r, up to %d of '
                '%r and of %r' % (7 + d, raw, 6 + d, tokens, calls),
                parse_items, check_parse),
        FnSpace('slices', '%d offsets x %d lengths x heads'
                % (len(slices), len(slices)), slice_items, check_parse),
        FnSpace('characters', 'every character up to U+024F in every '
                'position of a substitution', char_items, check_parse),
        FnSpace('long', 'nesting up to 250, repetition up to 1000',
                long_items, check_parse),
        FnSpace('values', 'values of up to 10 characters x all offsets and '
                'lengths, constant and variable', value_items, check_slice),
        lines('lines', 'all token strings of up to %d of %r in an '
              'application' % (4 + d, tokens), line_items),
        lines('forms', '%d places x all pairs of substitutions'
              % len(FORMS), form_items),
        near_space(IDS, deep=not quick),
    ]
