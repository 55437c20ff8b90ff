"""
P08: pattern matching. Nondeterminism-free matcher over character sets
against Pattern.matches_extension, example, and E_DP_PAT_INVALID.
"""
import itertools
import unicodedata

from mc import impl
from mc.core import BMP_BLOCKS, FnSpace, Violation, block, sequences
from mc.ref import pattern as ref

from asterisklint.pattern import Pattern

ASSUMPTIONS = [
    'characters are bytes of the UTF-8 encoding, as in Asterisk',
    'patterns are not empty (the dialplan has another meaning for that)',
    'a set with just a dash cannot match anything (dashes in numbers are '
    'ignored), so it has no example',
    'a dot or exclamation mark ends the match, even if the pattern has '
    'more characters after that',
]


def check_matches(raw, extens, st):
    model = ref.parse(raw)
    pat = Pattern(raw, impl.HERE)
    if pat.is_valid != ref.is_valid(model):
        raise Violation('validity of pattern %r' % raw,
                        ref.is_valid(model), pat.is_valid, raw)
    n = 0
    for exten in extens:
        want = ref.matches(model, exten)
        got = pat.matches_extension(exten)
        if bool(got) != want:
            raise Violation('pattern %r, extension %r' % (raw, exten),
                            want, got, raw)
        n += want
    if ref.is_valid(model) and frozenset(b'-') not in model[1]:
        example = pat.example
        if not ref.matches(model, example):
            raise Violation('the example of %r does not match' % raw, None,
                            example, raw)
        if not pat.matches_extension(example):
            raise Violation('the example of %r is not matched' % raw, None,
                            example, raw)
    st.transitions += len(extens)
    st.states.add(hash(model) & ((1 << 61) - 1))
    st.outcome((n, model), not ref.is_valid(model))


def check_documents(patterns, st):
    """
    The dialplan reports the invalid ones; and only those.
    """
    lines = ['[c]']
    want = []
    for raw in patterns:
        lines.append('exten => %s,1,NoOp()' % raw.replace(';', '\\;'))
        if not ref.is_valid(ref.parse(raw)):
            want.append((len(lines), 'E_DP_PAT_INVALID'))
    impl.dialplan(('\n'.join(lines) + '\n').encode('utf-8'), walk=False)
    got = [i for i in impl.line_ids() if i[1] == 'E_DP_PAT_INVALID']
    if got != want:
        n = min(set(got) ^ set(want)) if set(got) ^ set(want) else got[0]
        raise Violation('malformed set reports differ', want[:5], got[:5],
                        lines[n[0] - 1])
    st.step(tuple(want))
    st.outcome(tuple(want), bool(want))


def check_unicode(first, st):
    for ch in block(first):
        alike = set((ch, ch.lower(), ch.upper(), unicodedata.normalize(
            'NFKC', ch), ch.casefold(), 'X', '5', '-'))
        for raw in (ch, '_' + ch, '_X' + ch, '0%s1' % ch):
            check_matches(raw, [a + b + c for a in ('', '0') for b in alike
                                for c in ('', '1')], st)


def in_file(raw):
    """Whether this survives the journey through a dialplan file."""
    return raw and raw.strip() == raw and not set(raw) & set('=,\n\r\\;')


def chunks(it, n):
    it = iter(it)
    while True:
        ret = list(itertools.islice(it, n))
        if not ret:
            return
        yield ret


def spaces(tier):
    quick = tier == 'quick'
    joined = ''.join
    small = list(map(joined, sequences('0129a-', 3 if quick else 4)))
    chars = [chr(i) for i in range(1, 128)]
    single = chars + [a + b for a in '0aX' for b in '09z'] + [
        '', '-', '--', '-0-', '\xe9', '\u20ac', '0\xe9']
    syms = ['0', '2', 'a', 'X', 'n', '.', '!', '-', '[', ']', '[12]',
            '[0-2a]', '\xe9']
    abc = '019-[]\\ax'
    longx = [joined(i) for n in (4, 5, 6, 7, 20, 60)
             for i in (['1' * n], ['0'] + ['9'] * (n - 1),
                       ['2'] * (n - 1) + ['a'], ['1-'] * n, ['-'] * n)]

    def long_patterns():
        for a in ('X', 'Z', 'n', '[0-29]', '1', '1-', '.', '!', '[a-]', '[',
                  '[]', '\xe9'):
            for n in (5, 6, 7, 19, 20, 21, 59, 60, 61, 400):
                for tail in ('', '.', '!', 'X', '[', '-', '[-'):
                    yield '_' + a * n + tail
                    yield a * n + tail

    depth = 4 if quick else 5
    spaces = [
        FnSpace('patterns', 'all patterns of up to %d symbols out of %r x '
                'all extensions of up to %d characters over "0129a-"'
                % (depth, syms, 3 if quick else 4),
                lambda: ('_' + joined(i) for i in sequences(syms, depth)),
                lambda raw, st: check_matches(raw, small, st)),
        FnSpace('literals', 'all extensions without underscore of up to 4 '
                'symbols x the same',
                lambda: map(joined, sequences('02aX.!-[]_', 3, 1)),
                lambda raw, st: check_matches(raw, small, st)),
        FnSpace('sets', 'all patterns with one set of up to 5 characters '
                'over %r x all single characters' % abc,
                lambda: ('_' + a + '[' + joined(i) + ']' + b
                         for i in sequences(abc, 4 if quick else 5)
                         for a, b in (('', ''), ('0', ''), ('', '9'))),
                lambda raw, st: check_matches(raw, single, st)),
        FnSpace('characters', 'every ASCII character alone, as set, as '
                'range and between others x all single characters',
                lambda: (i % c for c in chars for i in (
                    '%s', '_%s', '_[%s]', '_[0%s]', '_[%s-a]', '_0%s',
                    '0%s', '_%s9')),
                lambda raw, st: check_matches(raw, single, st)),
        FnSpace('unicode', 'every character of the BMP (and others) in 4 '
                'patterns x some extensions with it, or something alike',
                lambda: BMP_BLOCKS, check_unicode),
        FnSpace('ranges', 'every range between two printable characters x '
                'all single characters',
                lambda: ('_[%s-%s]' % (a, b) for a in chars[31:]
                         for b in chars[31:]),
                lambda raw, st: check_matches(raw, single, st)),
        FnSpace('long', 'patterns of up to 400 characters x extensions of '
                'up to 120', long_patterns,
                lambda raw, st: check_matches(raw, longx, st)),
        FnSpace('reports', 'dialplans with all patterns of up to %d '
                'symbols out of %r' % (depth + 1, syms),
                lambda: chunks(
                    (i for i in (
                        p + joined(s)
                        for s in sequences(syms, depth + 1)
                        for p in ('_', '')) if in_file(i)), 500),
                check_documents),
        FnSpace('set-reports', 'dialplans with all pieces of sets of up to '
                '%d characters' % (depth + 3),
                lambda: chunks(
                    (i for i in (
                        '_' + joined(s)
                        for s in sequences('[]-0.', depth + 3))
                     if in_file(i)), 500),
                check_documents),
    ]
    return spaces
