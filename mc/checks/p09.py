"""
P09: the canonical form, and the hint that names it.
"""
import re

from mc import impl
from mc.checks.p08 import chunks, in_file
from mc.core import BMP_BLOCKS, FnSpace, Violation, block, sequences
from mc.ref import pattern as ref

from asterisklint.pattern import Pattern

ASSUMPTIONS = [
    'sets with characters outside of ASCII are excepted: they have no '
    'legible other form',
]
RE_HINT = re.compile(r'^pattern (.*) is not in the canonical form (.*)$')


def meaning(raw):
    """
    Two patterns with the same meaning match the same extensions, and the
    other way around.
    """
    is_pattern, items = ref.parse(raw)
    ret = []
    for item in items:
        ret.append(item)
        if item in (ref.DOT, ref.BANG):
            break
    return tuple(ret)


def ascii_sets(raw):
    return all(ord(i) < 128 for i in raw)


EXTENS = ['', '0', '1', '2', '9', 'a', 'n', '-', '.', '!', '[', ']', '01',
          '12', '29', 'ab', '\xe9', '1234', '\\', '_', '_1', 'X']


def check_canonical(raw, st):
    model = ref.parse(raw)
    pat = Pattern(raw, impl.HERE)
    canon = pat.canonical_pattern
    if not ref.is_valid(model):
        if canon != raw:
            raise Violation('invalid pattern %r is rewritten' % raw, raw,
                            canon, raw)
        st.outcome('invalid', True)
        return
    if canon and meaning(canon) != meaning(raw):
        raise Violation('the canonical form of %r means something else'
                        % raw, meaning(raw), canon, raw)
    if not canon:
        if model[1]:
            raise Violation('the canonical form of %r is empty' % raw, None,
                            canon, raw)
        st.outcome('empty', False)
        return
    if pat.is_canonical != (ref.dashless(raw) == canon):
        raise Violation('%r is (not) canonical' % raw,
                        ref.dashless(raw) == canon, pat.is_canonical, raw)
    again = Pattern(canon, impl.HERE)
    if again.canonical_pattern != canon or not again.is_canonical:
        raise Violation('the canonical form %r of %r is not canonical'
                        % (canon, raw), canon, again.canonical_pattern, raw)
    for exten in EXTENS:
        if (pat.matches_extension(exten) != again.matches_extension(exten)):
            raise Violation('%r and canonical %r differ for %r'
                            % (raw, canon, exten),
                            pat.matches_extension(exten),
                            again.matches_extension(exten), raw)
    # All that have the same sets should have this form. So does the plain
    # one.
    if ascii_sets(raw):
        plain = ref.plain(model)
        if plain is not None:
            other = Pattern(plain, impl.HERE).canonical_pattern
            if other != canon:
                raise Violation('%r and %r have other canonical forms'
                                % (raw, plain), canon, other, raw)
    st.step(model)
    st.outcome(canon, canon != raw)


def check_unicode(first, st):
    for ch in block(first):
        for raw in (ch, '_' + ch, '_X' + ch, '0-%s' % ch):
            check_canonical(raw, st)


def check_hints(patterns, st):
    lines = ['[c]']
    want = []
    written = []
    for raw in patterns:
        lines.append('exten => %s,1,NoOp()' % raw.replace(';', '\\;'))
        if ref.is_valid(ref.parse(raw)):
            canon = Pattern(raw, impl.HERE).canonical_pattern
            if ref.dashless(raw) != canon:
                want.append((len(lines), repr(raw), repr(canon)))
                written.append((raw, canon))
    impl.dialplan(('\n'.join(lines) + '\n').encode('utf-8'), walk=False)
    got = []
    for fn, lineno, id_, text in impl.messages(text=True):
        if id_ == 'H_PAT_NON_CANONICAL':
            m = RE_HINT.match(text)
            got.append((lineno,) + (m.groups() if m else (text, None)))
    got.sort()
    if got != want:
        n = (sorted(set(got) ^ set(want)) or got)[0][0]
        raise Violation('non-canonical hints differ',
                        [i for i in want if i[0] == n],
                        [i for i in got if i[0] == n], lines[n - 1])
    check_written(written)
    st.step(len(want))
    st.outcome(tuple(want), bool(want))


def check_written(both):
    """
    With the canonical form put in the place of the pattern, the same is
    read, and it is fine.
    """
    for frame in ('exten => %s,1,NoOp()', 'exten=%s,1,NoOp()'):
        lines = ['[general]', '[globals]']
        for n, (raw, canon) in enumerate(both):
            lines.append('[c%d]' % n)
            lines.append(frame % canon.replace(';', '\\;'))
        plan = impl.dialplan(('\n'.join(lines) + '\n').encode('utf-8'),
                                 walk=False)
        hints = [i for i in impl.messages(text=True)
                 if i[2] == 'H_PAT_NON_CANONICAL']
        if hints:
            raise Violation('%r is said not to be canonical after all'
                            % lines[hints[0][1] - 1], None, hints[0][3],
                            lines[hints[0][1] - 1])
        got = [[i.pattern.raw for i in context.by_pattern()]
               for context in plan.contexts]
        for (raw, canon), exten in zip(both, got):
            if exten != [canon]:
                raise Violation('what is written for %r reads differently'
                                % raw, [canon], exten, raw)
        if len(got) != len(both):
            raise Violation('contexts are missing', len(both), len(got))


def spaces(tier):
    quick = tier == 'quick'
    joined = ''.join
    syms = ['0', '2', 'n', 'X', 'Z', '.', '!', '-', '_', '[', ']', '\xe9',
            '[12]', '[0-9]', '[-]', '[9-1]', '[2-45-9]', '[ac]']
    abc = '0129-[naZ\\_.]'
    d = 4 if quick else 5
    chars = [chr(i) for i in range(32, 127)]

    def ranges():
        for a in chars:
            for b in chars:
                yield '_[%s-%s]' % (a, b)
                yield '_[%s%s]' % (a, b)
                yield '_[-%s%s]' % (a, b)
                yield '_[%s-%sx]' % (a, b)
                yield '_[%s-%s0-9]' % (a, b)
                yield '_[0%s-%s-]' % (a, b)
                yield '_%s-%s' % (a, b)
                yield '%s%s' % (a, b)

    def subsets():
        for base in ('0123456789', 'YZ[\\]^_', '+,-./0', 'wxyzXNn'):
            for bits in range(1, 1 << len(base)):
                members = [base[i] for i in range(len(base))
                           if bits >> i & 1]
                if ']' in members or '-' in members:
                    # These can only be written as a part of a range.
                    continue
                yield '_[%s]' % joined(members)
                yield '_[%s]' % joined(reversed(members))
                if len(members) > 2:
                    yield '_[%s-%s%s]' % (members[0], members[1],
                                          joined(members[2:]))

    def in_context(patterns, contexts=('%s', '%s.', 'X%s', '%sX%s')):
        # A pattern of just single characters has a canonical form that
        # is not a pattern at all. So put them between others as well.
        for pat in patterns:
            if pat.startswith('_'):
                for context in contexts:
                    yield '_' + context.replace('%s', pat[1:])
            else:
                yield pat

    def everything(n):
        for s in sequences(syms, n):
            s = joined(s)
            yield '_' + s
            if s:
                yield s

    return [
        FnSpace('patterns', 'all patterns of up to %d symbols out of %r'
                % (d, syms), lambda: everything(d), check_canonical),
        FnSpace('sets', 'all sets of up to %d characters over %r, alone and '
                'before a wildcard' % (d, abc),
                lambda: in_context(('_[%s]' % joined(i) for i in
                                    sequences(abc, d)), ('%s', '%s!')),
                check_canonical),
        FnSpace('larger-sets', 'all sets of %d characters over %r'
                % (d + 1, abc),
                lambda: ('_[%s]' % joined(i)
                         for i in sequences(abc, d + 1, d + 1)),
                check_canonical),
        FnSpace('unicode', 'every character of the BMP (and others) in 4 '
                'patterns', lambda: BMP_BLOCKS, check_unicode),
        FnSpace('ranges', 'every pair of printable characters as range, set '
                'and sequence, alone and between other symbols',
                lambda: in_context(ranges()), check_canonical),
        FnSpace('subsets', 'every subset of runs of characters around the '
                'special ones, alone and between other symbols',
                lambda: in_context(subsets()), check_canonical),
        FnSpace('hints', 'dialplans with all patterns of up to %d symbols'
                % (d - 1),
                lambda: chunks(filter(in_file, everything(d - 1)), 500),
                check_hints),
        FnSpace('set-hints', 'dialplans with all sets of up to %d '
                'characters' % d,
                lambda: chunks(filter(in_file, (
                    '_[%s]' % joined(i) for i in sequences(abc, d))), 500),
                check_hints),
        FnSpace('subset-hints', 'dialplans with all of those subsets and '
                'ranges',
                lambda: chunks(filter(in_file, (
                    i for f in (subsets, ranges)
                    for i in in_context(f(), ('%s', '%sZ')))), 500),
                check_hints),
    ]
