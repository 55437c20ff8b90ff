"""
Lines with applications, judged by the reference of applications. Used by
P12 up to P16.
"""
import itertools

from mc import impl
from mc.core import FnSpace, Violation, near
from mc.ref import apps as ref

HEAD = ['[general]', '[globals]', '[a]', 'exten => s,1,NoOp()']


def usable(text):
    """Whether this is what the dialplan makes of it."""
    return (text.rstrip(' \t') == text and '\n' not in text and
            ';' not in text)


def check_apps(texts, ids, st, version='v13'):
    texts = [i.rstrip(' \t') for i in texts]
    lines = HEAD + ['same => n,' + i for i in texts]
    model = ref.Model(version)
    want = []
    for n, text in enumerate(texts):
        assert usable(text), text
        model.msgs = []
        model.line(text)
        want.extend((n + len(HEAD) + 1, id_, sub)
                    for id_, sub in model.msgs if id_ in ids)
        outcome = tuple(sorted(model.msgs))
        st.step(outcome)
        st.outcome(outcome, any(i[0] in ids for i in outcome))
    impl.dialplan(('\n'.join(lines) + '\n').encode('utf-8'), walk=False)
    want.sort()
    got = [i[1:] for i in impl.messages(True) if i[2] in ids]
    diff = ref.differences(want, got)
    if diff:
        lineno, w, g = diff
        raise Violation('%r is reported differently' % (
            lines[lineno - 1] if lineno else None), w, g,
            lines[lineno - 1])
    # Each of them on the line, and nothing elsewhere.
    return model


def chunks(it, n=250):
    it = iter(it)
    while True:
        ret = list(itertools.islice(it, n))
        if not ret:
            return
        yield ret


def joined(seqs):
    return (''.join(i) for i in seqs)


CALLS = (
    'NoOp(a b)', 'NoOp', 'Hangup()', 'Goto(a,s,1)', 'Goto(s,x)', 'Goto(2)',
    'GotoIf($["${A}"="b"]?a,s,1:x)', 'GotoIf(${A}?:2)',
    'GotoIfTime(9:00-17:00,mon-fri,*,*?a,s,1)', 'Gosub(a,s,1(x,${y}))',
    'GosubIf(${A}?a,s,x(1):2(y,z))',
    'ExecIf(${A}?Set(B=${C:1:-2}):Playback(x&y))',
    'ExecIf($[${A} > 1]?Goto(a,s,1))', 'ExecIf(${A},NoOp,x)',
    'ExecIfTime(*,*,*,*?NoOp(x))', 'VoiceMail(1@b,ub(2)g(3))',
    'Milliwatt(o)', 'Originate(SIP/1,app,NoOp,x)',
    'Originate(SIP/1,exten,a,s,1,30)', 'Set(CUT(a,b,1)=${CUT(x,-,2):1})',
    'Set(__X="${X}x")', 'Set(AUDIOHOOK_INHERIT(Mute)=yes)',
    'Set(A=$[${LEN(${A})}+1])', 'NoOp(${LEN(${${A}b:1})}$[${B} + 1])',
    'Dial(SIP/${EXTEN:1}@x,30,tT)', 'NoOp(\'a\' (b) {c} [d] "e")',
    'Verbose(1,x\\,y)', 'BackGround(a&b)', 'MSet(a=1,b=2)',
    'NoOp(${SET(a=${b})}${INC(c)})', 'NoOp(${ODBC_X(a,${b})})',
    'NoOp(${IF($[${A}=1]?a:b)})', 'NoOp(${A:0:1}${A:-1}${B_2})',
    'Macro(a,${ARG1})', 'While($[${A} < 2])', 'Return(${A})',
    'Playback(a,skip)', 'Queue(x,,,,20)', 'Nope(${NOPE(a)})')


def near_space(ids, version='v13', calls=CALLS, deep=False, **kwargs):
    """
    All single edits of a number of calls. With deep, all double edits of
    the shorter ones as well.
    """
    def items():
        for call in calls:
            yield call
            for text in near(call):
                yield text
        if deep:
            few = ' (){},=?:"\\$a1'
            for call in calls:
                if len(call) < 16:
                    for text in near(call, few):
                        for other in near(text, few):
                            yield other

    def texts():
        return (i for i in items() if ';' not in i and
                'unknown' not in i.lower())

    return FnSpace(
        'edits', 'all single edits (of %d calls of applications)%s'
        % (len(calls), ' and double edits of the short ones' if deep
           else ''),
        lambda: chunks(texts()),
        lambda texts, st: check_apps(texts, ids, st, version), **kwargs)
