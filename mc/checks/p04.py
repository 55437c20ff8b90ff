"""
P04: every line is one element or one diagnostic. A line classifier and a
context machine against the configuration parser.
"""
import itertools

from mc import impl
from mc.core import (
    BMP_BLOCKS, FnSpace, Violation, block, near_documents, sequences)
from mc.ref.conf import classify, lstrip, read_elements
from mc.ref.reader import comment_split, read_file

ASSUMPTIONS = [
    'letters stand for all characters without a meaning to the parser',
    'the vertical layout messages are judged by P05',
]
LAYOUT = ('W_WSV_BOF', 'W_WSV_EOF', 'H_WSV_CTX_BETWEEN',
          'H_WSV_VARSET_BETWEEN')


def expect(data, st, missing=True):
    """Returns ([(ctx, lineno, [(key, arrow, value, lineno)])], msgs)"""
    elements, msgs = read_elements(data)
    contexts = []
    for lineno, el, comment in elements:
        if el[0] == 'ctx':
            contexts.append((el[1], lineno, []))
        elif el[0] == 'var':
            if contexts:
                contexts[-1][2].append((el[1], el[2], el[3], lineno))
            else:
                msgs.append((lineno, 'E_CONF_CTX_MISSING'))
        elif el[0] == 'pp' and el[1] == '#include':
            msgs.append((lineno, 'W_PP_INCLUDE_MISSING'))
        st.step((el, bool(contexts)))
    msgs.sort()
    return contexts, msgs


def observe(data):
    impl.reset()
    got = []
    for context in impl.load(impl.FileConfigParser, {'a.conf': data}):
        got.append((context.name, context.where.lineno, [
            (context[i].variable, context[i].arrow, context[i].value,
             context[i].where.lineno) for i in range(len(context))]))
    return got, impl.line_ids(ignore=LAYOUT)


def first_diff(a, b):
    for n in range(max(len(a), len(b))):
        if a[n:n + 1] != b[n:n + 1]:
            return a[n:n + 2], b[n:n + 2]
    return a, b


def check_doc(data, st):
    contexts, msgs = expect(data, st)
    got, gotmsgs = observe(data)
    if got != contexts:
        raise Violation('contexts and variables differ',
                        *first_diff(contexts, got))
    if gotmsgs != msgs:
        raise Violation('diagnostics differ', *first_diff(msgs, gotmsgs))
    st.outcome((str(contexts), tuple(msgs)), bool(msgs))


def quoted(data):
    """{(lineno, id): what the message quotes of the line}"""
    ret = {}
    for lineno, raw, text, ids in read_file(data):
        line = comment_split(text)[0]
        el = classify(line)[0]
        body = lstrip(line)
        if el[0] == 'bad':
            ret[lineno, 'E_CONF_BAD_LINE'] = (
                body if body[0] == '#' else line)[:16]
        elif el[0] == 'pp' and el[1] == '#exec':
            ret[lineno, 'W_PP_EXEC'] = el[2]
        elif el[0] == 'pp':
            ret[lineno, 'W_PP_INCLUDE_MISSING'] = el[2]
    return ret


def check_quotes(lines, st):
    check_seq(lines, st)
    want = quoted(''.join(i + '\n' for i in lines).encode('utf-8'))
    for fn, lineno, id_, text in impl.messages(True):
        what = want.get((lineno, id_))
        if what is not None and repr(what) not in text:
            raise Violation('%s does not show what is in the line' % id_,
                            what, text)


def check_seq(lines, st):
    check_doc(''.join(i + '\n' for i in lines).encode('utf-8'), st)


SHAPES = (
    '[a]', '[b]', ' [c]', '[d](t)', '[e](!)', '[f] (t,u)', '[g](+)', '[h',
    'x=1', 'x => 2', 'y = 3', ' z=4', ' same => n,5', 'same=6', 'w=>7',
    'k==8', 'k=>=9', '= 10', '=', 'x', ']', '[i]x', '', ' ', '; c', 'x=1;c',
    '#include nope', '#tryinclude nope', '#exec foo', '#include', ' #x',
    '#include "x', '#include\tnope=1', '\xa0[j]', '\xa0m=\xa01')
CORE = ('[a]', '[b](t)', '[c', 'x=1', 'y => 2', ' z = 3', 'x', '#include n',
        '#foo', '; c', '')


def directive_lines():
    for lead in ('', ' ', '\t', '\xa0'):
        for cmd in ('#include', '#tryinclude', '#exec', '#', '#inc',
                    '#includes', '#INCLUDE', '#tryincludex', '#include#'):
            for sep in ('', ' ', '\t', '  ', '\t\t', ' \t', '\x1f', ' \x0b',
                        '\xa0', '\x85'):
                for lq in ('', '"', '<', "'", '>'):
                    for name in ('', 'f', 'f g', 'd/f', '"', '<', 'f;x'):
                        for rq in ('', '"', '>', "'", '<', ' '):
                            yield lead + cmd + sep + lq + name + rq


def spaces(tier):
    quick = tier == 'quick'
    abc = 'a[]()=> #+;\\"'
    d = 3 if quick else 5
    tails = [''.join(i) for i in itertools.product(abc, repeat=2)]
    special = 'a=[]\xa0\x0b\t \u3000\xe9'

    def check_tails(head, st):
        # One file; a known header before every line tells us where the
        # elements end up.
        head = ''.join(head)
        lines = []
        for t in tails:
            lines.extend(('[q%d]' % len(lines), head + t))
        check_seq(lines, st)

    def check_bare(line, st):
        check_seq([''.join(line)], st)

    def check_blanks(line, st):
        check_seq([''.join(line)], st)
        check_seq(['[q]', ''.join(line)], st)

    def check_directives(n, st):
        lines = ['[q]']
        for i, line in enumerate(directive_lines()):
            if i % 200 == n:
                lines.append(line)
        check_quotes(lines, st)

    def long_items():
        for a in CORE:
            for b in SHAPES:
                for n in (20, 100, 300):
                    yield (a,) * n + (b, 'x=2')

    forms = ('%s', '%s[a]', '[%sa]', '[a]%s', '[a](b%s)', '[a]%s(b)',
             '%sx=1', 'x%s=1', 'x=%s1', 'x=1%s', 'x %s=>1', 'x=%s>1',
             '#include%sx', '%s#include x', '#%s', '#include "x%s', 'x%sy')

    def check_chars(item, st):
        form, first = item
        lines = []
        # str.lstrip() and a regex do not agree about these everywhere.
        skip = '\x1c\x1d\x1e\x1f\u180e' if '%s#' in form else ''
        for ch in block(first, skip + '\r\n'):
            lines.extend(('[q%d]' % len(lines), form % ch))
        check_seq(lines, st)

    document = ('x = 1', '[ctx]', 'key => value', 'same = n,a=b', '[d](t,u)',
                '#include "nofile"', '#tryinclude <d/f>', '#exec cmd x',
                '#include file', '[e] ; c', 'k=>v\\;w ; c', 'some other line', '#nonsense directive')

    return [
        FnSpace('edits', 'all single edits of a file of %d lines'
                % len(document), lambda: near_documents(document),
                check_quotes),
        FnSpace('characters', 'every character of the BMP (and others) in '
                '%d kinds of lines' % len(forms),
                lambda: itertools.product(forms, BMP_BLOCKS), check_chars),
        FnSpace('lines', 'all lines of 2 to %d characters over %r, each '
                'after a header of its own' % (d + 2, abc),
                lambda: sequences(abc, d), check_tails),
        FnSpace('bare-lines', 'all one-line files of up to %d characters '
                'over %r' % (d + 1, abc),
                lambda: sequences(abc, d + 1), check_bare),
        FnSpace('blanks', 'all lines of up to %d characters over %r, '
                'alone and after a header' % (4 if quick else 5, special),
                lambda: sequences(special, 4 if quick else 5),
                check_blanks),
        FnSpace('directives', 'all directive lines: leading blanks x '
                'keyword x separator x quotes x name',
                lambda: range(200), check_directives),
        FnSpace('shapes', 'all files of up to 3 lines out of %d shapes'
                % len(SHAPES), lambda: sequences(SHAPES, 3), check_quotes),
        FnSpace('core-shapes', 'all files of up to %d lines out of %r'
                % (5 if quick else 6, CORE),
                lambda: sequences(CORE, 5 if quick else 6), check_seq),
        FnSpace('long', 'up to 300 times the same line before another',
                long_items, check_seq),
    ]
