"""
P05: vertical layout. One layout automaton per file instance, against the
parser.
"""
import itertools

from mc import impl
from mc.core import FnSpace, Violation, bfs_traces, sequences
from mc.ref.conf import Layout

IDS = ('W_WSV_BOF', 'W_WSV_EOF', 'H_WSV_CTX_BETWEEN', 'H_WSV_VARSET_BETWEEN')
ASSUMPTIONS = [
    'directives and malformed lines are no part of the layout: the blanks '
    'around them count as one run',
]

# symbol => (line, kind); kind None is no part of the layout.
LINES = {
    'B': ('', 'blank'), 'S': (' \t', 'blank'), 'N': ('\xa0', 'blank'),
    'C': ('; c', 'comment'), 'D': ('  ;', 'comment'),
    'H': ('[h]', 'ctx'), 'T': ('[t](u) ; c', 'ctx'),
    'V': ('v=1', 'var'), 'W': ('w => 2;c', 'var'),
    'X': ('bad', None), 'E': ('[e', None), 'P': ('#exec p', None),
    'b': ('#include b', 'b'), 'c': ('#include "c"', 'c'),
    'd': ('#tryinclude <b>', 'b'),
    '0': ('#include b', 'b'), '1': ('#include c', 'c'),
    '2': ('#include d', 'd'), '3': ('#include e', 'e'),
    '4': ('#include f', 'f'), '5': ('#include g', 'g'),
    'm': ('#include missing', None), 't': ('#tryinclude missing', None),
}


def content(syms):
    return ''.join(LINES[i][0] + '\n' for i in syms).encode('utf-8')


def expect(files, st, name='a', msgs=None):
    top = msgs is None
    if top:
        msgs = []
    lay = Layout()
    resumed = True
    for n, sym in enumerate(files[name]):
        kind = LINES[sym][1]
        if kind in files:
            expect(files, st, kind, msgs)
            resumed = False
        elif kind:
            lay.feed(kind, n + 1)
            resumed = True
        st.step((lay.state(), resumed, name))
    lay.eof(resumed)
    msgs.extend((name, n, i) for n, i in lay.msgs)
    if top:
        msgs.sort()
    return msgs


def check(files, st, class_=None):
    want = expect(files, st)
    impl.reset()
    data = dict((k, content(v)) for k, v in files.items())
    for ctx in impl.load(class_ or impl.FileConfigParser, data, 'a'):
        pass
    got = [i for i in impl.messages() if i[2] in IDS]
    if got != want:
        raise Violation('layout messages differ', want, got)
    st.outcome(tuple(want), bool(want))


def check_one(syms, st):
    check({'a': syms}, st)


def check_dialplan(syms, st):
    check({'a': syms}, st, impl.FileDialplanParser)


def check_func_odbc(syms, st):
    check({'a': syms}, st, impl.FileFuncOdbcParser)


def check_tree(item, st):
    a, b, c = item
    check({'a': a, 'b': b, 'c': c}, st)


def check_chain(item, st):
    depth, pre, post, last = item
    files = {}
    for n, name in enumerate('abcdefg'[:depth]):
        # Every other file has it the other way around.
        p, q = (pre, post) if n % 2 == 0 else (post, pre)
        files[name] = p + str(n) + q
    files['abcdefg'[depth]] = last
    check(files, st)


def step(syms, sym):
    return syms + sym


def canon(syms):
    lay = Layout()
    for n, sym in enumerate(syms):
        lay.feed(LINES[sym][1], n)
    # More detail than the automaton: up to six blanks, five variables.
    return (lay.bof, min(lay.nvars, 5),
            tuple((k, min(len(v), 6)) for k, v in lay.runs[-3:]),
            min(len(lay.runs), 4))


def spaces(tier):
    quick = tier == 'quick'
    d = 8 if quick else 10
    mixed = 'BSNCDHTVWXEP'

    def graph_items():
        traces, _, _ = bfs_traces('', 'BCHV', step, 14, canon=canon)
        for t in traces:
            t = ''.join(t)
            for end in ('', 'H', 'V', 'VB', 'BH', 'CBH', 'BBBC', 'BBBCBV'):
                yield t + end

    def long_items():
        for a in sequences('BCHV', 3, 1):
            for b in sequences('BCHV', 2):
                for n in (7, 33, 120):
                    yield ''.join(a) * n + ''.join(b)

    def tree_items():
        bs = [''.join(i) for i in sequences('BVc', 2 if quick else 3)]
        bs += ['BVB', 'BBc', 'cBc', 'ccB', 'cc', 'HVVV', 'VVVB', 'HB']
        cs = ['', 'B', 'VBB', 'BHVVV']
        for a in sequences('BHVbcm', 4 if quick else 5, 1):
            a = ''.join(a)
            if 'b' in a:
                for b in bs:
                    for c in (cs if 'c' in a + b else cs[:1]):
                        yield a, b, c
            elif 'c' in a:
                for c in cs:
                    yield a, '', c

    def tree2_items():
        # Pending blanks, comments and a non-tiny context around includes.
        pre = ['', 'B', 'BB', 'HVVV', 'HVVVB', 'VBBB', 'VCB', 'VBC']
        inc = ['b', 'd', 'bb', 'bBb', 'bVb', 'bCb', 'mb', 'bm', 'm', 't',
               'cb', 'bc', 'bX', 'Xb', 'bt']
        post = ['', 'B', 'BB', 'H', 'BV', 'BBH', 'CB', 'BBBC', 'X', 'BX']
        bs = ['', 'B', 'BB', 'C', 'V', 'BV', 'VB', 'VBBBC', 'c', 'Bc', 'cB',
              'BcB', 'VcB', 'VcH', 'HVVVc', 'HVVVcH', 'mB', 'Bm']
        cs = ['', 'B', 'V', 'BVB', 'HVVV']
        for p, i, q, b, c in itertools.product(pre, inc, post, bs, cs):
            if 'c' in i + b or not c:
                yield p + i + q, b, c

    def chain_items():
        around = ['', 'B', 'VBB', 'BBV', 'HVVVV', 'CB', 'BVB']
        for depth in range(3, 7):
            for p, q in itertools.product(around, repeat=2):
                for last in ('', 'B', 'BBVBB', 'HVVVHB'):
                    yield depth, p, q, last

    return [
        FnSpace('chains', 'files that include one another up to 6 deep x '
                'lines before x lines after x lines of the last',
                chain_items, check_chain),
        FnSpace('layout', 'all files of up to %d lines out of blank, '
                'comment, header and variable' % d,
                lambda: map(''.join, sequences('BCHV', d)), check_one),
        FnSpace('kinds', 'all files of up to %d lines out of %d shapes of '
                'blank, comment, header, variable, malformed and directive'
                % (4 if quick else 5, len(mixed)),
                lambda: map(''.join, sequences(mixed, 4 if quick else 5)),
                check_one),
        FnSpace('graph', 'a trace for each transition of the layout '
                'automaton with runs of up to 6 blanks and 5 variables, '
                'with each of 8 endings', graph_items, check_one),
        FnSpace('long', 'all sequences of up to 3 lines repeated up to 120 '
                'times, before all sequences of up to 2 lines', long_items,
                check_one),
        FnSpace('include-trees', 'all files of up to %d lines with includes '
                'x included files x their included files'
                % (4 if quick else 5), tree_items, check_tree),
        FnSpace('include-edges', 'lines before x includes x lines after x '
                'included files x their included files', tree2_items,
                check_tree),
        FnSpace('dialplan', 'the same layouts of up to 5 lines in a '
                'dialplan', lambda: map(''.join, sequences('BCHV', 5)),
                check_dialplan),
        FnSpace('func_odbc', 'the same layouts of up to 5 lines in '
                'func_odbc', lambda: map(''.join, sequences('BCHV', 5)),
                check_func_odbc),
    ]
