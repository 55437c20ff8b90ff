"""
P10: the order of patterns.
"""
import itertools
import re

from mc import impl
from mc.core import FnSpace, Violation, sequences
from mc.ref import pattern as ref

from asterisklint.pattern import Pattern

ASSUMPTIONS = [
    'transitivity follows from the agreement of every pair with a '
    'lexicographic key',
]


def check_row(item, st):
    """
    One pattern against all others.
    """
    raws, idx = item
    raws = CATALOGUE[raws]
    a, ka = Pattern(raws[idx], impl.HERE), ref.sort_key(raws[idx])
    for raw in raws:
        b, kb = Pattern(raw, impl.HERE), ref.sort_key(raw)
        want = (ka < kb, ka == kb, ka > kb)
        got = (a < b, a == b, a > b)
        if got != want:
            raise Violation('order of %r and %r' % (raws[idx], raw), want,
                            got, (raws[idx], raw))
        got = (not a >= b, not a != b, not a <= b)
        if got != want:
            raise Violation('negated order of %r and %r' % (
                raws[idx], raw), want, got, (raws[idx], raw))
        if want[1] and hash(a) != hash(b):
            raise Violation('equal patterns %r and %r have other hashes' % (
                raws[idx], raw))
    st.transitions += len(raws)
    st.states.add(hash((raws[idx],)) & ((1 << 61) - 1))
    st.traces += len(raws) - 1
    st.outcome(raws[idx], True)


CATALOGUE = {}
RE_SHOWN = re.compile(r"^  '(.*?)' => +1\. ")


def check_show(patterns, st):
    data = '[c]\n' + ''.join(
        'exten => %s,1,NoOp()\n' % i for i in patterns)
    plan = impl.dialplan(data.encode('utf-8'), walk=False)
    got = [RE_SHOWN.match(i).group(1)
           for i in plan.format_as_dialplan_show().split('\n')
           if RE_SHOWN.match(i)]
    want = sorted(patterns, key=ref.sort_key)
    if got != want:
        raise Violation('order in the listing', want, got, patterns)
    st.step(tuple(patterns))
    st.outcome(tuple(got), list(patterns) != want)


def spaces(tier):
    quick = tier == 'quick'
    joined = ''.join
    syms = ['0', '1', 'X', 'Z', 'N', '[01]', '[12]', '[02]', '.', '!', 'a']
    bases = {
        'short': [joined(i) for i in sequences(syms, 2, 1)] + [
            '_' + joined(i) for i in sequences(syms, 2)],
        'deep': ['_' + joined(i) for i in sequences(
            ['0', 'X', '[13]', '.', '!'], 4 if quick else 5)] + [
            joined(i) for i in sequences('0-X', 3, 1)],
        'sets': ['_[%s]%s' % (joined(i), t)
                 for i in sequences('0129-a', 3, 1) for t in ('', '1')],
        'odd': ['_[', '_[]', '_[0', '_0[', '_0[]', '_0[]1', '_.[', '_!0',
                '_.0', '_-', '-', '--', '_--', '_0-1', '0-1', '01', '_01',
                '_[0]1', '_\xe9', '\xe9', '_[\xe9]', '_ ', '_X-', '_x',
                '_[0-9]', '_[9-0]', '_[0123456789]', '_[0-45-9]', '__',
                's', 'h', 'i', 't', '_s', '_[s]', '*', '#', '_*', '_#.'] + [
                chr(i) for i in range(33, 127)] + [
                '_' + chr(i) for i in range(33, 127)],
    }
    if not quick:
        bases['short'] = [joined(i) for i in sequences(syms, 2, 1)] + [
            '_' + joined(i) for i in sequences(syms, 3)]
    CATALOGUE.update(bases)
    pool = ['0', '01', '1', '_0', '_X', '_X.', '_X!', '_[01]', '_[02]',
            '_Z', '_0X', '_.', '_!', 's', '_XX', '_1X', '_[1-3]', '_0.']

    def show_items():
        for n in (2, 3) if quick else (2, 3, 4):
            for combo in itertools.combinations(pool, n):
                keys = set(ref.dupe_key(i) for i in combo)
                if len(keys) == n:
                    for perm in itertools.permutations(combo):
                        yield perm

    ret = []
    for name, raws in sorted(bases.items()):
        ret.append(FnSpace(
            'pairs-' + name, 'all pairs out of %d patterns' % len(raws),
            lambda name=name, raws=raws: (
                (name, i) for i in range(len(raws))), check_row))
    ret.append(FnSpace(
        'listing', 'every permutation of every selection of up to %d out '
        'of %d patterns, as a dialplan' % (3 if quick else 4, len(pool)),
        show_items, check_show))
    return ret
