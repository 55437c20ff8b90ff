"""
P02: comment split. A character machine against FileReader.
"""
import itertools

from mc import impl
from mc.core import BMP_BLOCKS, FnSpace, Violation, block, sequences
from mc.ref.reader import CommentMachine

ASSUMPTIONS = [
    'letters outside the alphabet behave like the letter in it',
]


def expect(lines, st):
    items, msgs = [], []
    for n, line in enumerate(lines):
        state = CommentMachine.INIT
        for ch in line:
            state = CommentMachine.step(state, ch)
            st.step(state)
        data, comment, ids = CommentMachine.finish(state)
        items.append((n + 1, data, comment))
        msgs.extend((n + 1, i) for i in ids)
    msgs.sort()
    return items, msgs


def check_lines(lines, st):
    items, msgs = expect(lines, st)
    impl.reset()
    reader = impl.load(impl.FileReader, {
        'a.conf': ''.join(i + '\n' for i in lines).encode('utf-8')})
    got = [(where.lineno, data, comment) for where, data, comment in reader]
    if got != items:
        bad = [i for i in range(len(items)) if got[i:i + 1] != [items[i]]][:1]
        raise Violation('data or comment differs', [items[i] for i in bad],
                        [got[i:i + 1] for i in bad])
    # (P01 is about the control characters.)
    gotmsgs = impl.line_ids(ignore=('W_FILE_CTRL_CHAR',))
    if gotmsgs != msgs:
        raise Violation('line diagnostics differ',
                        sorted(set(msgs) - set(gotmsgs)) or msgs[:20],
                        sorted(set(gotmsgs) - set(msgs)) or gotmsgs[:20])
    st.traces += len(lines) - 1
    st.outcome(tuple(msgs), bool(msgs))


def spaces(tier):
    quick = tier == 'quick'
    abc = 'a \t\\;=['
    wide = 'a \\;\u00e9\u20ac"\''
    tails = [''.join(i) for i in sequences(abc, 3)]
    wtails = [''.join(i) for i in sequences(wide, 2)]
    d1, d2, d3 = (5, 4, 4) if quick else (6, 6, 6)
    blanks = ('\xa0', '\u2003', '\x0b', '\x1f', '\x85', '\u3000', '\ufeff')

    def check_tails(head, st):
        head = ''.join(head)
        check_lines([head + t for t in tails], st)

    def check_wtails(head, st):
        head = ''.join(head)
        check_lines([head + t for t in wtails], st)

    def odd_items():
        for o in blanks:
            for a in sequences('a ;\\' + o, 4):
                yield ''.join(a)

    def long_items():
        for a in abc:
            for b in ('',) + tuple(abc):
                for n in (10, 79, 80, 127, 255, 256, 1024, 4096):
                    for c in (';', '\\;', ' ;x', 'a'):
                        yield a * n + b + c

    def check_one(line, st):
        check_lines([''.join(line)], st)

    forms = ('%s', '%sx;y', 'x%s;y', 'x%s ;y', 'x \\;%s', ';%s', 'a%s', '%s;',
             'x\\%s;y', 'x\t%s\t;y', 'x;%s;')

    def check_chars(item, st):
        form, first = item
        check_lines([form % ch for ch in block(first)], st)

    return [
        FnSpace('characters', 'every character of the BMP (and others) in '
                '%d kinds of lines' % len(forms),
                lambda: itertools.product(forms, BMP_BLOCKS), check_chars),
        FnSpace('single', 'one-line files, all lines of up to %d characters '
                'over %r' % (d1, abc), lambda: sequences(abc, d1), check_one),
        FnSpace('lines', 'all lines of %d to %d characters over %r' % (
            d2, d2 + 3, abc),
            lambda: itertools.product(abc, repeat=d2), check_tails),
        FnSpace('quotes', 'all lines of up to %d characters over %r' % (
            d3 + 2, wide), lambda: sequences(wide, d3), check_wtails),
        FnSpace('long', 'lines of up to 4096 times the same character',
                long_items, check_one),
        FnSpace('unicode-blanks', 'all lines of up to 4 characters with '
                'blanks that are neither space nor tab', odd_items,
                check_one),
    ]
