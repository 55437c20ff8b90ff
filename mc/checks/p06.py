"""
P06: priorities, labels and duplicates. The dialplan machine against the
dialplan aggregator.
"""
import itertools

from mc import impl
from mc.core import FnSpace, Violation, near_documents, sequences
from mc.ref import dialplan as ref

ASSUMPTIONS = [
    'which applications exist, and what is wrong with them, is judged by '
    'other properties; here it is NoOp',
]


def observe(plan):
    ret = []
    for ctx in plan.contexts:
        ret.append((
            ctx.name,
            [(e.pattern.raw, e.prio, e.label or '', e.app.raw,
              e.where.lineno) for e in ctx],
            [i.context_name for i in ctx.includes]))
    return ret


def expected(model):
    return [(ctx.name, [(e.raw, e.prio, e.label, e.app, e.lineno)
                        for e in ctx.entries], ctx.includes)
            for ctx in model.contexts]


def check_doc(data, st):
    model = ref.run(data, st)
    plan = impl.dialplan(data, walk=False)
    want, got = expected(model), observe(plan)
    if want != got:
        raise Violation('the accepted dialplan differs', want, got)
    want = [i for i in model.msgs if i[1] in ref.IDS]
    got = [i for i in impl.line_ids() if i[1] in ref.IDS]
    if want != got:
        raise Violation('messages differ', want, got)
    for fn, lineno, id_, text in impl.messages(True):
        for quote in model.quotes.get((lineno, id_), ()):
            if quote not in text:
                raise Violation('%s does not show what is in the line' % id_,
                                quote, text)
    st.outcome((str(got), str(expected(model))), len(got) > 2)


def check_lines(lines, st):
    check_doc(''.join(i + '\n' for i in lines).encode('utf-8'), st)


def check_split(item, st):
    """
    A part of the lines is in an included file: that should not matter.
    """
    lines, i, j = item
    a = lines[:i] + ('#include b.conf',) + lines[j:]
    files = {'a.conf': a, 'b.conf': lines[i:j]}
    files = dict((k, ''.join(x + '\n' for x in v).encode('utf-8'))
                 for k, v in files.items())

    def flat(filename, lineno):
        if filename == 'b.conf':
            return i + lineno
        if lineno <= i:
            return lineno
        return lineno - 1 + j - i

    model = ref.run(''.join(x + '\n' for x in lines).encode('utf-8'), st)
    plan = impl.dialplan(files, walk=False)
    want = expected(model)
    got = [(name, [e[:4] + (flat(x.where.filename, x.where.lineno),)
                   for e, x in zip(entries, ctx)], incs)
           for ctx, (name, entries, incs) in zip(
               plan.contexts, observe(plan))]
    if want != got:
        raise Violation('the accepted dialplan differs', want, got)
    want = [i for i in model.msgs if i[1] in ref.IDS]
    got = sorted((flat(fn, n) if n else 0, id_)
                 for fn, n, id_ in impl.messages() if id_ in ref.IDS)
    for fn, n, id_ in impl.messages():
        # What is missing, is missing where the first context is.
        if not n and fn != plan.contexts[0].where.filename:
            raise Violation('%s is reported in %s' % (id_, fn),
                            plan.contexts[0].where.filename, fn)
    if want != got:
        raise Violation('messages differ', want, got)
    st.outcome((str(got), str(expected(model))), len(got) > 2)


def in_context(*lines):
    return ('[general]', '[globals]', '[a]') + lines


E = 'exten => %s,NoOp()'
MAIN = (E % '1,1', E % '1,n', E % '1,2', E % '1,3', E % '_X,1', E % '_X,n',
        E % '1,n(x)', E % '_[0-9],2(x)', 'same => n,NoOp()',
        'same => n(x),NoOp()', 'same => 1,NoOp()', '[a]', '[b]')
PRIOS = ('1', '2', '3', 'n', '0', '', ' 1', 'n ', '01', 'x', '-1', '1.0',
         'hint', '\u0661', '\xb2', '99999999999', 'N', 'same', '+1')
LABELS = ('', '(x)', '(y)', '()', '(x', '(x)z', '((x))', '(1)', '(x,y)', ')',
          '(x) ', ' (x)')
PATS = ('1', '01', '1-', '_1', '_[1]', '_X', '_x', '_[0-9]', '_[', '_[]',
        '', '_', '_1.', '-', '_0X', '_[0-9-]', '\xe9', ' 1', '1 ')


DOCUMENTS = (
    ('[general]', '[globals]', 'X=1', '[a]', 'exten => _X,1(x),NoOp()',
     'same => n,NoOp()', 'exten => 12,1,NoOp()', 'exten => 12,n(y),NoOp()',
     'exten => 12,hint,SIP/x', 'same => 3(z),NoOp()', 'include => b',
     'switch => Lua', 'ignorepat => 9', '[b]', 'exten = _[0-9],1(x),NoOp()',
     '[a]', 'same => n(x),NoOp()'),
    ('[b]', 'exten => 1,1(x),NoOp()', 'exten => 1,1(x),NoOp()', '[a](!)',
     '[b]', '[general]', 'exten => 1-,n(x),NoOp()', 'same => 10,NoOp()',
     '[globals]', '[general]'),
)


def spaces(tier):
    quick = tier == 'quick'
    d = 5 if quick else 6

    def line_items():
        # Every line form, in a few histories.
        forms = [k + op + p + ',' + prio + label + app
                 for k, op, ps in (('exten', ' => ', PATS),
                                   ('exten', '=', PATS[:3]))
                 for p in ps for prio in PRIOS for label in LABELS
                 for app in ((',NoOp()', '') if p in ('1', '_X')
                             else (',NoOp()',))]
        forms += ['same' + op + prio + label + app
                  for op in (' => ', '=') for prio in PRIOS
                  for label in LABELS for app in (',NoOp()', '', ',')]
        forms += [k + op + v for k in (
            'include', 'switch', 'ignorepat', 'exten', 'same', 'hint', 'x',
            'extension', 'Exten', ' same', ' exten', 'include ', '', 'priv')
            for op in (' => ', '=', '=>', ' = ')
            for v in ('', 'b', '1', '1,1', ',', ',,', ',1,', '1,hint,SIP/x',
                      'n,NoOp()', ',n,NoOp()', '1,n', '1,,', '1,1,', 'b,c')]
        pre = [(), ('exten => 1,1,NoOp()',),
               ('exten => 1,1(x),NoOp()', 'exten => 1,2(y),NoOp()'),
               ('exten => _X,1,NoOp()', 'same => n(x),NoOp()', '[b]'),
               ('exten => 1,1(x),NoOp()', '[a]')]
        for form in forms:
            for p in pre:
                yield in_context(*(p + (form, 'same => n,NoOp()',
                                        'exten => 1,n(x),NoOp()')))

    def main_items():
        for seq in sequences(MAIN, d - 1):
            yield in_context(*seq)

    heads = ('[general]', '[globals]', '[a]', '[b]', '[general](t)',
             '[a](!)', ' [a]', '[General]')
    body = ('x=1', 'exten => 1,1,NoOp()', 'exten => 1,n,NoOp()',
            'same => n,NoOp()', 'include => b', 'junk')

    few = heads[:4] + body[1:5] if quick else heads[:4] + body

    def special_items():
        return sequences(few, d)

    def split_items():
        syms = ('[a]', '[b]', '[general]', MAIN[0], MAIN[1], MAIN[7],
                MAIN[9], 'include => b', 'junk')
        for seq in sequences(syms, 4 if quick else 5, 2):
            for i in range(len(seq)):
                for j in range(i + 1, len(seq) + 1):
                    if j - i < len(seq) or len(seq) < 4:
                        yield ('[general]', '[globals]', '[a]') + seq, (
                            3 + i), 3 + j
                        if len(seq) < 4:
                            yield ('[a]',) + seq, 1 + i, 1 + j
                            yield seq, i, j

    def special2_items():
        return sequences(heads + body, d - 1)

    # Two contexts, one pattern, all numbers.
    nums = [E % ('1,%s' % p) for p in ('1', '2', '3', '4', 'n', 'n(x)',
                                       '2(x)')]

    def number_items():
        for seq in sequences(nums, d):
            yield in_context(*seq)

    def pattern_items():
        for a in PATS:
            for b in PATS:
                for la, lb in itertools.product(('', '(x)'), repeat=2):
                    for pa, pb in itertools.product(('1', '2', 'n'),
                                                    repeat=2):
                        for mid in ((), ('[b]', '[a]'), (E % '2,1',)):
                            yield in_context(*(
                                (E % (a + ',' + pa + la),) + mid +
                                (E % (b + ',' + pb + lb),
                                 'same => n(x),NoOp()')))

    def long_items():
        for n in (20, 150):
            for a in MAIN:
                for b in MAIN:
                    yield in_context(*((MAIN[0], a) * n + (b, MAIN[8])))
                    yield in_context(*((MAIN[0],) + (a,) * n + (b, b)))
            yield in_context(*[E % ('%d,%s' % (i % 7, p))
                               for i in range(n) for p in ('1', 'n(x)', 'n')])
            for name in ('a', 'b', 'general', 'globals'):
                yield ('[a]', MAIN[0]) + (
                    '[%s]' % name, MAIN[1], MAIN[8]) * n

    return [
        FnSpace('edits', 'all single edits of %d files' % len(DOCUMENTS),
                lambda: (i for doc in DOCUMENTS
                         for i in near_documents(doc)), check_lines),
        FnSpace('histories', 'all histories of up to %d lines out of %d '
                'exten, same and header lines' % (d - 1, len(MAIN)),
                main_items, check_lines),
        FnSpace('numbers', 'all histories of up to %d lines of one '
                'extension with priorities 1..4, n, and labels' % d,
                number_items, check_lines),
        FnSpace('lines', 'every line form (key x operator x pattern x '
                'priority x label) after 5 histories', line_items,
                check_lines),
        FnSpace('patterns', 'every pair out of %d patterns with every '
                'priority and label' % len(PATS), pattern_items,
                check_lines),
        FnSpace('special', 'all files of up to %d lines out of %r'
                % (d, few), special_items, check_lines),
        FnSpace('special-more', 'all files of up to %d lines out of %r'
                % (d - 1, heads + body), special2_items, check_lines),
        FnSpace('split', 'all histories of up to %d lines with every part of '
                'it in an included file' % (4 if quick else 5), split_items,
                check_split),
        FnSpace('long', 'histories of up to 450 lines', long_items,
                check_lines),
    ]
