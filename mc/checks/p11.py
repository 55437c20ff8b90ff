"""
P11: jump destinations. A reachability model of the final dialplan against
the walk over the jump destinations.
"""
import itertools

from mc import impl
from mc.core import NEAR, FnSpace, Violation, near, sequences
from mc.ref import dialplan as refdp
from mc.ref import jumps as ref

ASSUMPTIONS = [
    'the example number of the current extension stands for ${EXTEN}: the '
    'lowest character of every set',
    'the names in a jump have no quotes, blanks or backslashes (the '
    'splitting of arguments is judged by P12)',
    'contexts with variables in the name are taken as unknown, in full',
]
JUMPS = {}


def jumps_of(app):
    return JUMPS.get(app, ())


def dest(jump):
    context, exten, prio = jump
    if context is not None:
        return '%s,%s,%s' % jump
    if exten is not None:
        return '%s,%s' % jump[1:]
    return prio


def add(text, *jumps):
    JUMPS[text] = jumps
    return text


def forms(jump, second=(None, None, '1')):
    """
    All the ways to jump there.
    """
    d, d2 = dest(jump), dest(second)
    return [
        add('Goto(%s)' % d, jump),
        add('GotoIf($[1]?%s)' % d, jump),
        add('GotoIf(${V}?%s:%s)' % (d, d2), jump, second),
        add('GotoIf($[${V}=1]?:%s)' % d, jump),
        add('Gosub(%s)' % d, jump),
        add('Gosub(%s(a,${b}))' % d, jump),
        add('GosubIf(${V}?%s)' % d, jump),
        add('GosubIf(${V}?%s(1):%s(${x}))' % (d2, d), second, jump),
        add('ExecIf(${V}?Goto(%s))' % d, jump),
        add('ExecIf(${V}?NoOp(1):Gosub(%s(x,y)))' % d, jump),
        add('ExecIf(${V}?Goto(%s):GotoIf(${V}?%s:%s))' % (d2, d2, d),
            second, second, jump),
    ]


def check_data(data, st):
    model = refdp.run(data, st)
    want = ref.messages(model, jumps_of)
    impl.dialplan(data)
    got = sorted((n, id_, text) for fn, n, id_, text in impl.messages(True)
                 if id_ in ref.IDS)
    if got != want:
        lines = data.decode('utf-8').split('\n')
        n = sorted(set(got) ^ set(want))
        n = n[0][0] if n else got[0][0]
        raise Violation('jump reports differ: %r' % lines[n - 1],
                        [i for i in want if i[0] == n],
                        [i for i in got if i[0] == n])
    st.outcome(tuple(want), bool(want))


def check_lines(lines, st):
    check_data(''.join(i + '\n' for i in lines).encode('utf-8'), st)


E = 'exten => %s,%s,%s'
CTXS = (None, 'a', 'b', 'c', 'd', 'nope', '${V}', 'a${V}', '')
EXTS = (None, '1', '7', 's', 'i', 'x1', '${EXTEN}', '${V}', '9${EXTEN}',
        '${EXTEN:1}', '${EXTEN:-1}', '${EXTEN:0:1}', '${EXTEN}${V}', '-7-', '')
PRIOS = ('1', '2', '9', '01', 'x', 'y', 'nope', '${V}', 'x${V}', '${V}y',
         '1${V}', '${P}a${Q}', '', 'x,y,z')


def all_jumps(ctxs=CTXS, exts=EXTS, prios=PRIOS):
    for jump in itertools.product(ctxs, exts, prios):
        if jump[1] is None and jump[0] is not None:
            continue
        if jump[1] is None and not jump[2] or (
                jump[0] is None and ',' in jump[2]):
            continue
        yield jump


def check_graph(item, st):
    """
    An include graph, and a destination somewhere.
    """
    includes, where, prio, every = item
    lines = ['[general]', '[globals]']
    names = ('a', 'b', 'c')
    for name, incs in zip(names, includes):
        lines.append('[%s]' % name)
        if name == where:
            lines.append(E % ('7', prio, 'NoOp()'))
        if name == every:
            lines.append(E % ('i', '1', 'NoOp()'))
        lines.append(E % ('s', '1', 'NoOp()'))
        lines.extend('same => n,' + i for i in GRAPH_JUMPS)
        lines.extend('include => %s' % i for i in incs)
    check_lines(lines, st)


GRAPH_JUMPS = []


def prepare():
    GRAPH_JUMPS[:] = [add('Goto(%s)' % dest(j), j) for j in (
        (None, '7', '1'), (None, '7', 'x'), (None, '8', '1'),
        ('a', '7', '1'), ('a', '7', 'x'), ('b', '7', '2'),
        ('c', '7', 'x'), ('c', '${V}', 'x'), ('${V}', '${V}', 'x'),
        ('a', '${V}', 'nope'), ('b', '${V}', 'x'), ('c', '7', '${V}'),
        ('nope', '7', '1'), ('${V}', '7', 'y'), (None, '${V}', 'x'))]


def spaces(tier):
    quick = tier == 'quick'
    prepare()
    for j in all_jumps():
        forms(j)

    def graph_items():
        subsets = [tuple(i for i in c if i) for c in itertools.product(
            ('a', ''), ('b', ''), ('c', ''))]
        if not quick:
            subsets += [('nope',), ('b', 'nope', 'a'), ('a', 'a', 'c')]
        for g in itertools.product(subsets, repeat=3):
            for where in ('a', 'b', 'c'):
                for prio in ('1', '1(x)'):
                    for every in (None, 'a', 'c'):
                        yield g, where, prio, every

    # All forms of all destinations, from a few contexts.
    base = ['[general]', '[globals]', '[a]', E % ('1', '1', 'NoOp()'),
            'same => n(x),NoOp()', E % ('_7X', '1', 'NoOp()'),
            '[b]', E % ('_[78]', '1(y)', 'NoOp()'), 'include => a',
            '[c]', E % ('_X.', '1', 'NoOp()'),
            'same => n(xya),NoOp()', E % ('i', '1', 'NoOp()'),
            '[d]', E % ('7', '1(y)', 'NoOp()'), 'same => n(y),NoOp()',
            'same => 12(),NoOp()', E % ('9', '1(x1)', 'NoOp()')]
    jumpers = ('s', '7', '_X', '_[2-4]7!', '_97', '_.', '_[', 'x', '_[+-]7',
               '')

    def form_items():
        for jump in all_jumps():
            yield jump

    def check_forms(jump, st):
        lines = list(base)
        for ctx in ('j', 'a', 'b', 'c'):
            lines.append('[%s]' % ctx)
            for pat in jumpers[:-1]:
                lines.append(E % (pat, '1', 'NoOp()'))
                lines.extend('same => n,%s' % i for i in FORMS[jump])
        check_lines(lines, st)

    FORMS = dict((j, forms(j)) for j in all_jumps())

    # Histories: later lines, dropped lines, reopened contexts.
    G = [add(t, j) for t, j in (
        ('Goto(1,x)', (None, '1', 'x')), ('Goto(b,1,2)', ('b', '1', '2')),
        ('Goto(x)', (None, None, 'x')), ('Goto(1)', (None, None, '1')),
        ('Goto(${V},1,x)', ('${V}', '1', 'x')))]
    hist = ['[a]', '[b]', E % ('1', '1', 'NoOp()'), E % ('1', 'n(x)', G[0]),
            E % ('_X', '1(x)', G[1]), E % ('1', '2', G[2]),
            E % ('1', '1', G[4]), E % ('i', '1(x)', G[3]),
            'include => b', 'same => 0,' + G[0], E % ('1', 'x', G[0])]

    def history_items():
        for seq in sequences(hist, 4 if quick else 5):
            yield ('[general]', '[globals]', '[a]') + seq

    # Which patterns match which extensions?
    pats = ('1', '17', '-1', '_X', '_X.', '_X!', '_.', '_!', '_Z', '_N', 'i',
            '_[12]', '_1[5-9]', '_[', '_[-1]', 's', '_1', '_x7', '\xe9')
    to = ('1', '2', '0', '17', '1-7', 's', 'i', 'S', '${EXTEN}', '\xe9',
          '${EXTEN:1}', '1${EXTEN}', '-', '_X', '9' * 30)

    def pattern_items():
        for p in pats:
            for q in pats:
                yield p, q

    def check_patterns(item, st):
        p, q = item
        lines = ['[general]', '[globals]', '[a]', E % (p, '1', 'NoOp()')]
        for n, t in enumerate(to):
            for prio in ('1', 'x'):
                j = (None, t, prio)
                lines.append(E % (p, 'n', add('Goto(%s)' % dest(j), j)))
                j = ('b', t, prio)
                lines.append('same => n,' + add(
                    'Gosub(%s(%d))' % (dest(j), n), j))
        lines.extend(['[b]', E % (q, '1(x)', 'NoOp()')])
        check_lines(lines, st)

    def long_items():
        for n in (5, 50, 400):
            for shape in ('chain', 'cycle', 'star', 'full', 'nope'):
                if shape == 'full' and n > 50:
                    continue
                for prio in ('1', '1(x)'):
                    yield n, shape, prio

    def check_long(item, st):
        n, shape, prio = item
        lines = []
        for i in range(n):
            lines.extend(['[c%d]' % i, E % ('s', '1', GRAPH_JUMPS[0]),
                          'same => n,' + GRAPH_JUMPS[1]])
            to = {'chain': [i + 1], 'cycle': [(i + 1) % n],
                  'star': range(n) if not i else [], 'full': range(n),
                  'nope': [-1]}[shape]
            lines.extend('include => c%d' % j for j in to)
        lines.append(E % ('7', prio, 'NoOp()'))
        j = ('c0', '7', '1')
        for t, e in (('c0', '7'), ('c1', '7'), ('c0', '${V}'),
                     ('c%d' % (n - 1), '${V}'), ('c%d' % n, '7')):
            for p in ('1', 'x'):
                j = (t, e, p)
                lines.append('same => n,' + add('Goto(%s)' % dest(j), j))
        check_lines(lines, st)

    # All places, spelled a bit differently, on one side.
    places = ((None, None, '2'), (None, '12', 'x'), ('ab', '12', 'x'),
              ('ab', '71', '1'), ('Cd', '7Xs', 'Lab'), ('Cd', '12', 'x'),
              ('ab', '${V}', 'Lab'), ('${V}', '${V}', 'x'),
              ('Cd', '${EXTEN}', 'x'), ('Cd', 'i', '1'))
    edited = ('[general]', '[globals]', '[ab]', E % ('12', '1', None),
              'same => n(x),NoOp()', E % ('_7X', '1(y)', 'NoOp()'),
              'include => Cd', '[Cd]', E % ('7Xs', '1(Lab)', None),
              'same => n(x),NoOp()')

    def document(jumps):
        jumps = [add('Goto(%s)' % dest(j), j) for j in jumps]
        for line in edited:
            if line.endswith(',None'):
                yield line[:-4] + jumps[0]
                for j in jumps[1:]:
                    yield 'same => n,' + j
            else:
                yield line

    def edit_items():
        # Edits of the dialplan.
        lines = tuple(document(places))
        for i, line in enumerate(lines):
            if 'Goto' in line:
                yield i, None, None
            else:
                for other in near(line):
                    yield i, None, other
        # Edits of the destination.
        for i, place in enumerate(places):
            for j, name in enumerate(place):
                if name and '$' not in name:
                    for other in near(name, ''.join(
                            c for c in NEAR
                            if c not in ' \t,()[]{}"\\$?:&|;\x0b\x85\xa0'
                            '\u2028\u3000')):
                        if other:
                            yield i, j, other

    def check_edit(item, st):
        i, j, other = item
        if j is None:
            lines = list(document(places))
            if other is None:
                if lines[i].startswith('exten'):
                    return
                del lines[i]
            else:
                lines[i] = other
        else:
            place = list(places[i])
            place[j] = other
            lines = document(places[:i] + (tuple(place),) + places[i + 1:])
        check_lines(lines, st)

    return [
        FnSpace('edits', 'all single edits of a dialplan, and of the '
                'destinations of the %d jumps in it' % len(places),
                edit_items, check_edit),
        FnSpace('graphs', 'all include graphs of 3 contexts x the place of '
                'the destination x of an i extension x %d jumps from every '
                'context' % len(GRAPH_JUMPS), graph_items, check_graph),
        FnSpace('forms', 'every destination (context x exten x priority) x '
                '11 jump forms x %d jumping patterns in 4 contexts'
                % (len(jumpers) - 1), form_items, check_forms),
        FnSpace('histories', 'all histories of up to %d lines out of %r'
                % (4 if quick else 5, hist), history_items, check_lines),
        FnSpace('patterns', 'every pair of %d patterns x %d extensions to '
                'jump to' % (len(pats), len(to)), pattern_items,
                check_patterns),
        FnSpace('long', 'include chains, cycles, stars and complete graphs '
                'of up to 400 contexts', long_items, check_long),
    ]
