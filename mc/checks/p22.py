"""
P22: what was looked at before makes no difference.

The tree of all histories is walked: every node is a process, forked off
from the process that has done all that comes before, so every history is
really the history of one process. What a document gives there is compared
to what it gives in a process that did nothing else.
"""
import json

from .. import impl
from ..core import Space, Violation
from ..webstub import Request, load_web

ASSUMPTIONS = [
    'falcon is not installed: a stand-in of the routing and of the request '
    'and response objects is used',
    'func_odbc.conf is no document in here: it is there to add functions',
    'the listing is the one of dialplan-show',
]


# ---- Documents

G = b'[general]\n\n[globals]\nZ=1\n\n'
DOCS = {
    'empty': b'',
    'valid': G + b'[a]\nexten => s,1,NoOp(${CUT(A,b,1)})\n'
             b' same => n(x),Goto(x)\n',
    'background': G + b'[a]\nexten => s,1,BackGround(x)\n'
                  b' same => n,Background(x)\n same => n,NoOp(${len(a)})\n',
    'background2': G + b'[a]\nexten => s,1,Background(x)\n'
                   b' same => n,BackGround(x)\n same => n,background(x)\n',
    'unknown': G + b'[a]\nexten => s,1,Wrong(${WRONG(1)})\n'
               b' same => n,Set(ODBC_X(1)=${LEN(a)})\n'
               b' same => n,Goto(y)\n same => n,wrong()\n',
    'context': b'[globals]\n[y]\nexten => s,1,NoOp(${LEN})\n'
               b' same => n(y),Goto(a,s,1)\n same => n,noop\n',
    'dupes': G + G + b'[a]\nexten => s,1,NoOp()\nexten => s,1,NoOp()\n'
             b' same => n(x),Goto(y)\n[a]\n same => n(x),NoOp()\n'
             b'A=1\nA=2\n',
    'comment': G + b'[a]\n;-- open\nexten => s,1,NoOp\n\n\n\n',
    'dos': b'[general]\r\n[globals]\r\n\r\n[a]\r\nexten => s,1,NoOp\r\n\r\n',
    'vars': G + b'[a]\nexten => s,1,NoOp(${A${B:1}:0:0}${A\n'
            b' same => n,Set(A=${B:})\n same => n,ExecIf(1,NoOp,a)\n',
    'patterns': G + b'[a]\nexten => _[1-9]X.,1,NoOp(${EXTEN:1}\n'
                b'exten => _[,n,Goto(1,1)\ninclude => a\ninclude => q\n',
    'deep': G + b'[a]\nexten => s,1,NoOp(' + b'${' * 300 + b'}' * 300 +
            b')\n same => n,' + b'ExecIf(1?' * 400 + b')' * 400 + b'\n',
    'late': b'same => n,NoOp()\n[a](!)\n=\n\xff\nexten => 1,n,Goto(s,1)',
    'missing': G + b'[a]\n#include "none.conf"\nexten => s,1,NoOp()\n',
    'names': G + b'[a]\nexten => s,1,NoOp(${A-B}${A:0}${LEN(${A-B})})\n'
             b' same => n,Set(A B=${A-B})\n same => n,Goto(1|2)\n'
             b'exten => _X.,1,NoOp()\nexten => _x!,1,NoOp()\n',
    'spelling': G + b'[a]\nexten => _[0-9].,1,NoOp()\n'
                b'exten => _[0-9]!,1,NoOp()\n same => n,Goto(_X!,1)\n',
    'labels': G + b'[a]\nexten => s,1(foo),NoOp()\n'
              b'exten => i,n(bar),Goto(${A},s,x)\n',
    'jumps': G + b'[a]\nexten => 1,1,Goto(${A},s,foo)\n'
             b' same => n,Goto(a,${A},bar)\n same => n,Goto(a,s,1)\n'
             b' same => n,Goto(y,s,1)\ninclude => y\n',
    # This file cannot be read any further.
    'broken': G + b'[a]\nexten => s,1,Wrong\n same => n(x),wrong(\n;--\nEIO',
}


class Broken(impl.File):
    def __next__(self):
        line = super().__next__()
        if line == b'EIO':
            raise OSError(5, 'Input/output error')
        return line
    readline = None


def opener(filename):
    if filename == 'extensions.conf.EIO':
        return Broken('extensions.conf', DOCS['broken'])
    raise FileNotFoundError(filename)


def check(name):
    """The sorted messages, or what went wrong."""
    try:
        if name == 'broken':
            impl.dialplan(b'', main='extensions.conf.EIO', opener=opener)
        else:
            impl.dialplan(DOCS[name], main='extensions.conf')
    except Exception as e:
        return 'failed ' + type(e).__name__
    return impl.messages(True)


def show(name):
    try:
        impl.reset()
        plan = next(iter(impl.load(
            impl.FileDialplanParser, {'extensions.conf': DOCS[name]},
            'extensions.conf')))
        return plan.format_as_dialplan_show()
    except Exception as e:
        return 'failed ' + type(e).__name__


class Stop(Exception):
    pass


def halt(name):
    """Someone stops it at the first message that has a line."""
    from asterisklint.defines import MessageDefManager
    old = MessageDefManager.on_message

    def on_message(msg):
        raise Stop()
    impl.reset()
    try:
        parser = impl.load(
            impl.FileDialplanParser, {'extensions.conf': DOCS[name]},
            'extensions.conf')
        MessageDefManager.on_message = on_message
        next(iter(parser)).walk_jump_destinations()
    except Exception as e:
        return type(e).__name__
    finally:
        MessageDefManager.on_message = old
    return 'through'


APP = []


def body(name, **kwargs):
    data = DOCS[name]
    try:
        data = data.decode('utf-8')
    except UnicodeDecodeError:
        data = data.decode('latin1')
    return json.dumps({'files': {'extensions.conf': data}})


def web(name):
    return APP[0].request('POST', '/dialplan-check', Request(body(name)))


BAD = {
    'json': ('POST', '/dialplan-check', Request('{')),
    'nofiles': ('POST', '/dialplan-check', Request('{}')),
    'list': ('POST', '/dialplan-check', Request('[]')),
    'nofile': ('POST', '/dialplan-check', Request('{"files": {}}')),
    'other': ('POST', '/dialplan-check', Request(
        '{"files": {"sip.conf": "[a]"}}')),
    'null': ('POST', '/dialplan-check', Request(
        '{"files": {"extensions.conf": null}}')),
    'surrogate': ('POST', '/dialplan-check', Request(
        '{"files": {"extensions.conf": "[a]\\n\\ud800"}}')),
    'large': ('POST', '/dialplan-check', Request(
        body('unknown'), 64 * 1024 + 1)),
    'thread': ('POST', '/dialplan-check', Request(
        body('unknown'), multithread=True)),
    'get': ('GET', '/dialplan-check', Request('')),
    'health': ('GET', '/healthz', Request('')),
    'index': ('GET', '/', Request('')),
}


def bad(name):
    status, text = APP[0].request(*BAD[name])
    return status, len(text)


KINDS = {'check': check, 'show': show, 'halt': halt, 'web': web, 'bad': bad}


def alone(op):
    kind, name = op
    return impl.in_child(KINDS[kind], name)


def expect_web(name):
    """
    What the web service is to answer: (status, None or list of findings).
    """
    if name == 'missing':
        return None, None
    data = json.loads(body(name))['files']['extensions.conf']

    def fn():
        impl.dialplan(data.encode('utf-8'), main='extensions.conf')
        return impl.messages(True)
    return '200 OK', impl.in_child(fn)


class HistorySpace(Space):
    """
    Items: the first operations. All that may follow is done from there.
    """
    hang = 100

    def __init__(self, name, ops, depth, split=2):
        self.name = name
        self.ops, self.depth = ops, depth
        self.bound = ('all sequences of up to {} of {} operations in one '
                      'process'.format(depth, len(ops)))
        self.split = min(split, depth)

    def items(self):
        if self.split == 1:
            for one in self.ops:
                yield (one,)
        else:
            for one in self.ops:
                for two in self.ops:
                    yield (one, two)

    def setup_worker(self):
        impl.preload()
        APP[:] = [load_web()]
        self.wanted = dict((op, alone(op)) for op in self.ops)
        self.findings = dict(
            (name, expect_web(name)) for kind, name in self.ops
            if kind == 'web')

    def one(self, history, op):
        kind, name = op
        got = KINDS[kind](name)
        key = repr(history + (op,))
        if kind == 'web':
            status, findings = self.findings[name]
            if (got[0] != status if status else
                    not got[0].startswith(('4', '5'))):
                raise Violation(
                    'the answer to {!r}, after {!r}, has another '
                    'status'.format(op, history), status, got[0], key)
            if findings is not None:
                found = got[1]['results']
                if list(found) != ['extensions.conf']:
                    raise Violation(
                        'the answer to {!r}, after {!r}, is about other '
                        'files'.format(op, history), 'extensions.conf',
                        list(found), key)
                found = found['extensions.conf']
                lines = [i['line'] for i in found]
                if lines != sorted(lines):
                    raise Violation(
                        'the answer to {!r}, after {!r}, is not '
                        'sorted'.format(op, history), sorted(lines), lines,
                        key)
                found = sorted(('extensions.conf', i['line'], i['class'],
                                i['desc']) for i in found)
                if found != findings:
                    raise Violation(
                        'the answer to {!r}, after {!r}'.format(op, history),
                        [i for i in findings if i not in found] or findings,
                        [i for i in found if i not in findings] or found,
                        key)
        if got != self.wanted[op]:
            raise Violation(
                'the outcome of {!r}, after {!r}, is another one'.format(
                    op, history), self.wanted[op], got, key)

    def explore(self, history):
        """
        In this process, history was done. Returns how many followed, and
        the first violation.
        """
        n = 0
        if len(history) < self.depth:
            for op in self.ops:
                more, v = impl.in_child(self.follow, history, op)
                n += more
                if v:
                    return n, v
        return n, None

    def follow(self, history, op):
        try:
            self.one(history, op)
        except Violation as v:
            return 1, (v.what, v.expected, v.got, v.key)
        n, v = self.explore(history + (op,))
        return n + 1, v

    def check(self, item, st):
        def fn():
            for i, op in enumerate(item[:-1]):
                self.one(item[:i], op)
            return self.follow(item[:-1], item[-1])
        n, v = impl.in_child(fn)
        if v:
            raise Violation(*v)
        st.transitions += n - 1
        st.traces += n - 1
        st.step(item)
        st.outcome(tuple(repr(self.wanted[i]) for i in item), True)
        st.count += n - 1


def spaces(tier):
    quick = tier == 'quick'
    docs = list(DOCS)
    checks = [('check', i) for i in docs]
    shows = [('show', i) for i in (
        'valid', 'background', 'dupes', 'patterns', 'late', 'missing')]
    halts = [('halt', i) for i in (
        'unknown', 'dupes', 'comment', 'vars', 'dos', 'missing', 'deep')]
    webs = [('web', i) for i in docs if i != 'broken']
    bads = [('bad', i) for i in BAD]
    few = [('check', 'background'), ('check', 'background2'),
           ('check', 'dupes'), ('check', 'unknown'), ('check', 'broken'),
           ('show', 'valid'), ('halt', 'vars'), ('web', 'valid'),
           ('web', 'unknown'), ('web', 'missing'), ('web', 'deep'),
           ('bad', 'nofile')]
    ret = [
        HistorySpace('all', checks + shows + halts + webs + bads, 2, 1),
        HistorySpace('documents', checks + shows[:2] + halts[:3],
                     2 if quick else 3),
        HistorySpace('few', few, 3 if quick else 4),
    ]
    if not quick:
        ret.append(HistorySpace('requests', webs + bads, 3))
    return ret
