"""
P07: the listing of the dialplan. The listing of the dialplan machine
against the real one, and against itself.
"""
import re

from mc import impl
from mc.core import FnSpace, Violation, near_documents, sequences
from mc.ref import dialplan as ref

ASSUMPTIONS = [
    'the label of the first priority of an extension is not shown (there '
    'is no room for it)',
    'the quoting of the context name is like that of Python',
]
RE_FIRST = re.compile(r"^  '(.*)' => *(\d+)\. (.*?) *\[pbx_config\]$")
RE_NEXT = re.compile(r"^     (\[(.*?)\])? *(\d+)\. (.*?) *\[pbx_config\]$")
RE_INC = re.compile(r"^  Include => *'(.*)' *\[pbx_config\]$")
RE_CTX = re.compile(r"^\[ Context '(.*)' created by 'pbx_config' \]$")


def feed_back(listing):
    """
    Make a dialplan out of a listing.
    """
    ret, pat = [], None
    for line in listing.split('\n'):
        m = RE_CTX.match(line)
        if m:
            ret.append('[%s]' % m.groups())
            continue
        m = RE_INC.match(line)
        if m:
            ret.append('include => %s' % m.groups())
            continue
        m = RE_FIRST.match(line)
        if m:
            pat, prio, app = m.groups()
            ret.append('exten => %s,%s,%s' % (pat, prio, app))
            continue
        m = RE_NEXT.match(line)
        if m:
            _, label, prio, app = m.groups()
            ret.append('exten => %s,%s%s,%s' % (
                pat, prio, '(%s)' % label if label else '', app))
            continue
        if line:
            raise Violation('line %r in the listing' % line)
    return ''.join(i.replace(';', '\\;') + '\n' for i in ret)


def first_diff(a, b):
    a, b = a.split('\n'), b.split('\n')
    for n in range(max(len(a), len(b))):
        if a[n:n + 1] != b[n:n + 1]:
            return a[n:n + 2], b[n:n + 2]
    return a, b


def check_lines(lines, st, again=True):
    data = ''.join(i + '\n' for i in lines).encode('utf-8')
    model = ref.run(data, st)
    plan = impl.dialplan(data, walk=False)
    forward = plan.format_as_dialplan_show(reverse=False)
    for want, got, how in (
            (model.show(), forward, 'forward'),
            (model.show(True), plan.format_as_dialplan_show(reverse=True),
             'reverse')):
        if want != got:
            raise Violation('the %s listing differs' % how,
                            *first_diff(want, got))
    if again:
        back = feed_back(forward)
        plan = impl.dialplan(back.encode('utf-8'), walk=False)
        listing = plan.format_as_dialplan_show(reverse=False)
        if listing != forward:
            raise Violation('the listing of the listing differs: %r' % back,
                            *first_diff(forward, listing))
    st.outcome(forward, forward.count('\n') > 2)


SCRATCH = impl.Scratch()


def check_command(item, st):
    lines, reverse = item
    data = ''.join(i + '\n' for i in lines).encode('utf-8')
    model = ref.run(data, st)
    path = SCRATCH.write('x.conf', data)
    impl.reset()
    args = ['--reverse', path] if reverse else [path]
    status, out, err = impl.run_command('dialplan-show', *args)
    want = (0, model.show(reverse) + '\n', '')
    if (status, out, err) != want:
        raise Violation('the output of dialplan-show differs', want,
                        (status, out, err))
    st.outcome(out, True)


E = 'exten => %s,NoOp()'
MAIN = ('[a]', '[b]', E % '1,1', E % '1,n', E % '1,n(x)', E % '_1,2',
        E % '_X,1', E % '_[0-9],3(y)', 'same => n(z),Foo', 'include => b',
        'include => c')
APPS = ('NoOp()', 'NoOp', 'NoOp(a', 'NoOp)', '', 'Set(a=b)', 'NoOp(%s %d)',
        'NoOp(\xe9\u20ac)', 'NoOp(' + 'x' * 60 + ')', 'N(a)(b)', 'NoOp( )',
        'noop({})', 'NoOp(\\;)', 'NoOp(a, b,c)', 'Dial(SIP/x,,tT)', '(', ')',
        'NoOp()x', 'Goto(1)', ' NoOp()')
PATS = ('1', '01', '1-2', '_X', '_x', '_X.', '_X!', '_.', 's', 'h', 'i', '*',
        '#', '+31', '_[1-3]X', '_[123]x', '_Z', '_N', '\xe9', '_\xe9', '_[',
        'a' * 20, "'", '1 2', '_[0-9]-X', '_1', 'abc', 'ABC')


def spaces(tier):
    quick = tier == 'quick'
    d = 5 if quick else 6

    def history_items():
        for seq in sequences(MAIN, d - 1):
            yield ('[general]', '[a]') + seq

    def number_items():
        nums = [E % ('1,%s' % p) for p in ('1', '3', '2(x)', 'n', '10')]
        nums.append(E % '_1,2')
        for seq in sequences(nums, d):
            yield ('[a]',) + seq

    def pattern_items():
        for a in PATS:
            for b in PATS:
                for c in PATS if not quick else PATS[:14]:
                    yield ('[a]', E % (a + ',1'), E % (b + ',1'),
                           'same => n(x),A(1)', E % (c + ',n(y)'),
                           E % (a + ',2(z)'))

    def app_items():
        for a in APPS:
            for p in ('1', '2', '10', '100000'):
                for b in APPS:
                    for lab in ('', '(x)', '(a-long-label-of-nineteen)'):
                        yield ('[a]', 'exten => 1,%s%s,%s' % (p, lab, a),
                               'same => n%s,%s' % (lab.replace('(', '(z'), b),
                               'exten => _2.,1%s,%s' % (lab, b))

    names = ('a', 'A', 'b', 'a b', 'a-1', '\xe9', '10', 'default', 'globals',
             'general', 'a' * 40, '', '_x')

    def context_items():
        for seq in sequences(names, 3):
            for mid in ((), (E % '1,1',), ('include => a', 'include => a',
                                            'include => \xe9 b|9:00-17:00')):
                ret = []
                for name in seq:
                    ret.append('[%s]' % name)
                    ret.extend(mid)
                yield tuple(ret)

    def long_items():
        for n in (10, 100, 400):
            for step in (1, 3, 7, 11):
                if n % step:
                    yield ('[a]',) + tuple(
                        E % ('%d,%d(l%d)' % (
                            i * step % n // 4, i * step % 4 + 1, i))
                        for i in range(n))
            yield tuple('[c%d]' % (i * 7 % n) for i in range(n))
            yield ('[a]',) + tuple('include => c%d' % (i * 7 % n)
                                   for i in range(n))
            yield ('[a]', E % '1,1') + ('same => n(x),NoOp(y)',) * n

    def command_items():
        for seq in sequences(MAIN, 3 if quick else 4):
            for reverse in (False, True):
                yield ('[a]',) + seq, reverse
        for it in (app_items, context_items):
            for n, lines in enumerate(it()):
                if n % 7 == 0:
                    yield lines, bool(n % 2)

    document = ('[a]', 'exten => _X,1(x),NoOp(a)', 'same => n(y),Set(a=b)',
                'exten => 12,1,NoOp', 'exten => 12,n(z),Foo()',
                'exten => _[2-4]!,2(x),Dial(SIP/x)', 'include => b',
                'include => c,9:00-17:00,mon-fri,*,*', '[b]', '[c]',
                'exten => 1,1,NoOp()', '[b]', 'exten => 1,2,NoOp()')

    return [
        FnSpace('edits', 'all single edits of a dialplan of %d lines'
                % len(document), lambda: near_documents(document),
                lambda lines, st: check_lines(lines, st, again=False)),
        FnSpace('histories', 'all dialplans of up to %d lines out of %r, '
                'listed forward, reverse, and fed back' % (d - 1, MAIN),
                history_items, check_lines),
        FnSpace('numbers', 'all dialplans of up to %d lines with priorities '
                'of one extension' % d, number_items, check_lines),
        FnSpace('patterns', 'all triples out of %d patterns' % len(PATS),
                pattern_items, check_lines),
        FnSpace('applications', 'all pairs of %d application texts x '
                'priorities x labels' % len(APPS), app_items, check_lines),
        FnSpace('contexts', 'up to 3 contexts out of %d names' % len(names),
                context_items,
                lambda lines, st: check_lines(lines, st, again=False)),
        FnSpace('long', 'up to 400 lines in one context, or contexts',
                long_items, check_lines),
        FnSpace('command', 'output of dialplan-show for all of up to %d '
                'lines' % (3 if quick else 4), command_items, check_command,
                setup_worker=SCRATCH.setup,
                teardown_worker=SCRATCH.teardown),
    ]
