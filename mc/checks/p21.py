"""
P21: nothing you write in a file makes a command crash or hang.

Every document of a bounded language is put in a file and looked at by all
of the commands. The only thing we want is that they come to an end, in one
of the two ways they may: with exit status 0 or 1, and without a traceback.
"""
import itertools
import os
import pickle
import subprocess
import sys

from .. import core, impl, stubs
from ..core import Space, Violation, sequences
from ..ref.apps import TABLES

RUNNER = os.path.join(core.VERIF, 'mc', 'runner.py')

G = b'[general]\n\n[globals]\n\n[a]\nexten => s,1,NoOp()\n'

# Where a token may be put. The document, with "@@" for the tokens.
POSITIONS = {
    'file': b'@@',
    'file-end': b'[general]\n[globals]\n@@',
    'head': b'[@@]\n[b]\nexten => s,1,NoOp()\n',
    'head2': b'[general]\n[globals]\n[a@@\nexten => s,1,NoOp()\nsame => n,A\n',
    'template': b'[general]\n[globals]\n[a](@@)\nexten => s,1,NoOp()\n',
    'general': b'[general]@@\n@@ = @@\n[globals]\n@@\n[a]\n@@\n',
    'globals': b'[general]\na=b\n[globals]\n@@ = @@\n[a]\n',
    'line': G + b'@@\nsame => n,NoOp()\n',
    'keyword': G + b'exten@@ s,2,NoOp()\n@@exten => s,2,NoOp()\nsame @@\n',
    'exten': G + b'exten => @@,1,Goto(@@,1)\nsame => n,NoOp(${EXTEN})\n',
    'pattern': G + b'exten => _@@,1,Goto(1@@,1)\nexten => _[@@],1,Goto(1,1)\n'
               b'exten => _X@@X.,1,NoOp()\n',
    'callerid': G + b'exten => s/@@,2,NoOp()\nexten => _X/_@@,1,NoOp\n',
    'prio': G + b'exten => s,@@,NoOp()\nexten => s,n@@,NoOp()\n'
            b'exten => s,1@@,NoOp()\nsame => @@\n',
    'label': G + b'exten => s,n(@@),Goto(@@)\nsame => n(x@@,Goto(s,@@)\n',
    'app': G + b'same => n,@@\nsame => n,NoOp@@\nsame => n,@@()\n',
    'arg': G + b'same => n,NoOp(@@)\nsame => n,Verbose(1,a@@\n'
           b'same => n,VoiceMail(a,@@)\nsame => n,Set(@@)\n',
    'assign': G + b'same => n,Set(@@=1)\nsame => n,Set(A=@@)\n'
              b'same => n,MSet(@@,@@=)\nsame => n,Set(LEN(@@)=@@)\n'
              b'same => n,Set(__@@)\n',
    'jump': G + b'same => n,Goto(@@)\nsame => n,Goto(a,@@,1)\n'
            b'same => n,Gosub(@@(1))\nsame => n,Gosub(s,@@(@@))\n',
    'if': G + b'same => n,GotoIf(@@)\nsame => n,GotoIf(1?@@:@@)\n'
          b'same => n,GosubIf($[@@]?@@:s,1)\nsame => n,GotoIfTime(@@?@@)\n',
    'execif': G + b'same => n,ExecIf(@@)\nsame => n,ExecIf(1?@@:@@)\n'
              b'same => n,ExecIf($[1]?NoOp(@@)@@)\n'
              b'same => n,ExecIf(@@,NoOp,@@)\nsame => n,ExecIfTime(@@?@@)\n',
    'originate': G + b'same => n,Originate(a,@@,@@)\n'
                 b'same => n,Originate(a,app,@@,@@)\n'
                 b'same => n,Originate(a,exten,@@,@@,@@)\n',
    'var': G + b'same => n,NoOp(${@@})\nsame => n,NoOp(${A@@\n'
           b'same => n,NoOp(@@${A}@@)\nsame => n,Goto(${@@})\n',
    'slice': G + b'same => n,NoOp(${A:@@})\nsame => n,NoOp(${A:1:@@})\n'
             b'same => n,NoOp(${A:${@@}:@@})\nsame => n,Goto(${EXTEN:@@},1)\n',
    'func': G + b'same => n,NoOp(${LEN(@@)})\nsame => n,NoOp(${@@(a)})\n'
            b'same => n,NoOp(${LEN(a)@@})\nsame => n,NoOp(${LEN@@})\n'
            b'same => n,Set(F=${CUT(A,@@)})\n',
    'write': G + b'same => n,Set(@@(a)=b)\nsame => n,Set(DB(@@)=)\n'
             b'same => n,Set(DB@@=1)\nsame => n,Set(INC(@@))\n'
             b'same => n,NoOp(${INC(@@)})\nsame => n,NoOp(${DEC@@})\n',
    'expr': G + b'same => n,NoOp($[@@])\nsame => n,Set(a=$[${A}@@1)\n'
            b'same => n,GotoIf($[@@]$[@@]?1)\n',
    'include': G + b'include => @@\ninclude =>@@\ninclude@@a\n[b]\n',
    'timing': G + b'include => a,@@\ninclude => a,9:00-17:00,@@,*,*\n'
              b'include => a|@@|mon\n',
    'hash': G + b'#include @@\n#include "@@"\n#@@\n#tryinclude @@\n#exec@@\n',
    'other': G + b'ignorepat => @@\nswitch => @@/@@\neswitch@@\n'
             b'lswitch =>@@\n@@ => @@\n',
    'hint': G + b'exten => s,hint,@@\nexten => @@,hint,SIP/a&@@\n'
            b'exten => s,1(@@),NoOp\n',
    'comment': G + b';@@\n;--@@\n@@--;\nsame => n,NoOp(a)@@;@@\n;--\n@@',
    'eol': G + b'same => n,NoOp()@@\nexten => s,1@@\n[b]@@\n',
}
ODBC_POSITIONS = {
    'odbc-file': b'@@',
    'odbc-head': b'[@@]\nreadsql=SELECT 1\n',
    'odbc-head2': b'[A]@@\nreadsql=SELECT 1\n[A](@@)\n',
    'odbc-key': b'[A]\n@@=SELECT 1\nreadsql@@SELECT 1\n',
    'odbc-value': b'[A]\nreadsql=@@\nwritesql=a@@b\nprefix=@@\ndsn=@@\n',
    'odbc-prefix': b'[A]\nprefix=B@@\nreadsql=1\n[@@B]\nprefix=@@\n'
                   b'synopsis=@@\nsyntax=@@\nwritesql=2\n',
    'odbc-line': b'[A]\nreadsql=1\n@@\nwritesql=1@@;@@\n',
}
ODBC_USER = (G + b'same => n,NoOp(${ODBC_A(1)}${A(1)}${B_A()})\n'
             b'same => n,Set(ODBC_A(1)=2)\n')

TOKENS = [i.encode('utf-8') for i in '()[]{}$,;"\\=>:?&|!.-_#ns1XN~ \t@/+*'
          ] + [b'\xc3\xa9', b'\xff', b'\0', b'\r', b'\x1f', b'\'', b'a', b'%',
               b'\xc2\xa0', b'9999999999', b'${A}', b'NoOp', b'\x85', b'<']
CORE = [b'(', b')', b'[', b']', b'${', b'}', b'$[', b',', b'"', b'\\', b':',
        b'?', b'=', b'-', b'1', b'n', b' ', b'a', b'X', b';', b'.', b'&']
PUMP = TOKENS + [
    b'${', b'$[', b'${A:', b'LEN(', b'${LEN(', b'ExecIf(1?', b'[1-9]',
    b'SET(', b'Set(', b'=>', b'--', b';-', b'\\;', b'\\\\', b'()', b'[]',
    b'""', b'X-', b' ,', b'${A}', b'a ', b'\t ', b'1-', b'-9', b',,',
    b'?:', b'(a)', b'(', b'((', b'\r\n', b'\n', b'a\n', b'[b]\n',
    b'[a](+)\n', b'exten => s,n,NoOp()\n', b'\xf0\x9f\x98\x80', b'$',
    b'include => a\n', b'${${', b'$[${', b'|', b'9', b'0']


class Crash(Exception):
    pass


COMMANDS = ('dialplan-check', 'dialplan-show', 'modules-show', 'ident-scan')
ODBC_COMMANDS = ('func_odbc-check', 'dialplan-check', 'modules-show')


def commands_for(odbc):
    if odbc:
        return [
            ('func_odbc-check', ['func_odbc.conf']),
            ('dialplan-check', ['user.conf']),
            ('modules-show', ['user.conf', '--func-odbc=func_odbc.conf'])]
    return [
        ('dialplan-check', ['a.conf']),
        ('dialplan-show', ['a.conf']),
        ('dialplan-show', ['--reverse', 'a.conf']),
        ('modules-show', ['a.conf']),
        ('ident-scan', ['a.conf']),
        ('ident-scan', ['-v', 'a.conf'])]


def look(odbc, n):
    """Run all commands. Raises Crash, or returns what came of it."""
    statuses = []
    ids = ()
    commands = commands_for(odbc)
    for k, (name, args) in enumerate(commands):
        # Take turns with those that differ little.
        if not odbc and k in (2, 4, 5) and n % 3 != k % 3:
            continue
        # (This one leaves a callback behind every time.)
        if name == 'modules-show' and n % 20:
            continue
        impl.reset()
        impl.forget_variables()
        try:
            status, out, err = impl.run_loud(name, *args)
        except (core.Hang, KeyboardInterrupt):
            raise
        except BaseException as e:
            cause = e
            while cause.__cause__ is not None:
                cause = cause.__cause__
            raise Crash('%s ends with %s: %s' % (
                name, type(cause).__name__, str(cause)[:300]))
        if status not in (0, 1, False, True):
            raise Crash('%s exits with %r: %s' % (name, status, err[:300]))
        for text in (out, err):
            if 'Traceback' in text:
                raise Crash('%s prints a traceback: %s' % (
                    name, text[-1000:]))
            # What a terminal would make of it.
            text.encode('utf-8', 'strict')
        statuses.append(int(status))
        if not k:
            ids = tuple(sorted(
                (id_, min(len(v), 3))
                for id_, v in impl.MessageDefManager.raised.items()))
    return tuple(statuses), ids


class CrashSpace(impl.Forked, Space):
    hang = 60
    commands = sorted(set(COMMANDS + ODBC_COMMANDS))

    def __init__(self, name, bound, items):
        self.name, self.bound, self._items = name, bound, items

    def items(self):
        return self._items()

    def show(self, item):
        return repr(item)[:300]

    def setup_worker(self):
        stubs.install_editdistance()
        super().setup_worker()
        sys.setrecursionlimit(1000)     # the usual
        self.n = 0
        self.write('user.conf', ODBC_USER)
        os.mkdir('dir')
        for name, data in (
                ('ok.conf', b'[i]\nexten => s,1,NoOp()\n'),
                ('empty.conf', b''), ('bin.conf', bytes(range(256)) * 3),
                ('noeol.conf', b'[j]'), ('1', b'same => n,NoOp()\n'),
                ('a', b'[zz](+)\n'), ('n', b';--\n'), ('X', b'\n\n')):
            self.write(name, data)

    def write(self, name, data):
        with open(name, 'wb') as f:
            f.write(data)

    def documents(self, item):
        """(odbc, documents) of an item."""
        raise NotImplementedError

    def check(self, item, st):
        odbc, docs = self.documents(item)

        ret = []
        try:
            for data in docs:
                self.write('func_odbc.conf' if odbc else 'a.conf', data)
                self.n += 1
                try:
                    ret.append(look(odbc, self.n))
                except Crash as e:
                    self.bad(item, data, str(e))
        finally:
            if odbc:
                os.unlink('func_odbc.conf')
        for outcome in ret:
            st.step((item[0], outcome))
            st.outcome(outcome, bool(outcome[1]))
        st.count += len(ret) - 1

    def bad(self, item, doc, what):
        raise Violation(what[-1500:], 'status 0 or 1',
                        doc if len(doc) < 3000 else
                        doc[:1500] + b' ... ' + doc[-1500:], repr(item))


def fill(position, text):
    template = POSITIONS.get(position) or ODBC_POSITIONS[position]
    return template.replace(b'@@', text)


class TokenSpace(CrashSpace):
    """Items: (position, alphabet, first tokens, number of tokens after)."""
    alphabets = {'tokens': TOKENS, 'core': CORE}

    def documents(self, item):
        position, alphabet, first, more = item
        alphabet = self.alphabets[alphabet]
        return position in ODBC_POSITIONS, [
            fill(position, b''.join(first + rest))
            for rest in itertools.product(alphabet, repeat=more)]


class DocSpace(CrashSpace):
    """Items: (odbc, documents)"""
    def documents(self, item):
        return item[0], item[1]


class PumpSpace(CrashSpace):
    """Items: (position, tokens, n, tail)"""
    hang = 120

    def documents(self, item):
        position, token, n, tail = item
        return position in ODBC_POSITIONS, [
            fill(position, token * n + tail)]


# ---- All sequences of lines

LINES = [
    b'[general]', b'[globals]', b'[a]', b'[a](+)', b'[a](!)', b'[b](a)',
    b'[]', b'[a', b'a=b', b'=', b'same => n,NoOp()', b'same =>',
    b'exten => s,1,NoOp(${A}', b'exten => s,n(l),Goto(l)', b'exten =>',
    b'exten => _[,n,NoOp', b'exten => s', b'exten => s,hint,SIP/a',
    b'include => a', b'include => b', b'#include ok.conf', b'#include dir',
    b'#include', b'#exec x', b'', b';--', b'--;', b'\xff\0', b'\\',
    b'exten => s,n,GotoIf(?:)', b'exten => s,n,Goto(x,y,z)', b'garbage',
    b'#include empty.conf', b'#include bin.conf', b'#include noeol.conf',
    b'#include a.conf',
    b'switch => a', b'include => ${X}', b'exten => _X.,n,Goto(${EXTEN:1},1)',
]
ODBC_LINES = [
    b'[A]', b'[B]', b'[a b]', b'[]', b'[A](+)', b'[general]', b'readsql=1',
    b'readsql=', b'read=1', b'writesql = 2;', b'dsn=a', b'prefix=X',
    b'prefix=', b'prefix=x y', b'insertsql=1', b'synopsis=', b'a', b'=',
    b'#include ok.conf', b'readsql=>1', b'', b';--', b'\xff', b'mode=multi',
    b'#include func_odbc.conf',
]

# ---- All apps and functions

SHAPES = [
    b'', b'()', b'(', b')', b'(a)', b'(,)', b'(a,b,c,d,e,f,g,h)', b'(${A})',
    b'(a&b)', b'(?)', b'(:)', b'(1?a:b)', b'(1?Goto(a):b)', b'(a=b)',
    b'(")', b'("a,b")', b'(\\)', b'(a|b)', b'(,,,abcdefghijklmnopqrstu)',
    b'(a,${A},$[1],${LEN(a)})', b'(\xff)', b'(${)', b'(a(b)c)', b'(1)(2)',
    b'(A)=', b'(A)=1', b'($)', b'(\0)', b'((', b'(=)', b'(a,U(x),U(x))',
    b'(SIP/a,10,ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz)',
]


def names(what):
    ret = set()
    for version in TABLES.values():
        for mods in version[what].values():
            ret.update(mods)
    return sorted(ret)


def app_docs(name):
    name = name.encode('utf-8')
    return [
        G + b'same => n,' + name + i + b'\nsame => n,ExecIf(1?' + name + i +
        b')\nsame => n,Originate(a,app,' + name + b',' + i + b')\n'
        for i in SHAPES]


def func_docs(name):
    name = name.encode('utf-8')
    return [
        G + b'same => n,NoOp(${' + name + i + b'})\nsame => n,Set(' + name +
        i + b'=1)\nsame => n,Set(' + name + i + b')\nsame => n,NoOp(${' +
        name + i + b':1:2})\nsame => n,GotoIf($[${' + name + i + b'}]?s,1)\n'
        for i in SHAPES]


# ---- Large structures

def large(n):
    """(name, document or files)"""
    yield 'contexts', G + b''.join(
        b'[c%d]\ninclude => c%d\nexten => s,1,Goto(x,1)\n' % (i, i + 1)
        for i in range(n))
    yield 'cycle', G + b''.join(
        b'[c%d]\ninclude => c%d\ninclude => c%d\nexten => s,1,Goto(x,1)\n' % (
            i, (i + 1) % n, (i * 7) % n) for i in range(min(n, 60)))
    yield 'jumps', G + b''.join(
        b'exten => %d,1,Goto(%d,1)\n' % (i, i + 1) for i in range(n))
    yield 'labels', G + b''.join(
        b'same => n(l%d),Goto(l%d)\n' % (i, i + 1) for i in range(n))
    yield 'patterns', G + b''.join(
        b'exten => _%d[1-9]X.,1,Goto(%d123,1)\n' % (i, i) for i in range(n))
    yield 'again', G * n
    yield 'dupes', G + b'exten => s,1,NoOp()\n' * n
    yield 'number', (
        G + b'exten => s,@@,NoOp(${A:@@:@@})\nexten => @@,n+@@,Goto(@@)\n'
        b'exten => s,n(@@),Goto(a,@@,@@)\n').replace(b'@@', b'7' * n)
    yield 'vars', G + b'same => n,NoOp(' + b''.join(
        b'${V%d}' % i for i in range(n)) + b')\n'
    yield 'opens', G + b'same => n,NoOp(' + b''.join(
        b'${V%d' % i for i in range(n)) + b'\n'
    for one, two in ((b'${', b'}'), (b'$[', b']'), (b'${LEN(', b')}'),
                     (b'ExecIf(1?', b')'), (b'Set(', b'=1)'), (b'(', b')'),
                     (b'[', b']'), (b'"', b'"'), (b'${A:', b'}'),
                     (b'SET(', b'=1)'), (b'Originate(a,app,', b')'),
                     (b'GosubIf(1?', b':a)'), (b'$[${', b'}]'),
                     (b'${${', b'}}'), (b'a(', b')'), (b'ExecIf(1,', b')'),
                     (b'${IF(1?', b')}'), (b'${EVAL(', b')}'),
                     (b'{', b'}')):
        name = 'nest' + one.decode('utf-8')
        deep = one * n + b'a' + two * n
        yield name, (
            G + b'same => n,' + deep + b'\nsame => n,NoOp(' + deep +
            b')\nsame => n,Set(' + deep + b'=' + deep + b')\n')
        yield name + '-2', (
            G + b'same => n,Goto(' + deep + b',1)\nsame => n,GotoIf(' + deep +
            b'?' + deep + b')\nsame => n,ExecIf(1?' + deep + b')\n')
        yield name + '-3', (
            G + b'exten => ' + deep + b',1(' + deep + b'),NoOp\n[' + deep +
            b']\ninclude => ' + deep + b'\nexten => _' + deep + b',n,NoOp\n')
    yield 'words', G + b'same => n,' + b'a ' * n + b'\n'


class LargeSpace(CrashSpace):
    hang = 120

    def documents(self, item):
        name, n = item
        for other, doc in large(n):
            if other == name:
                return False, [doc]


class FilesSpace(CrashSpace):
    """
    Files that include one another and themselves, and things that are no
    files.
    """
    hang = 60

    def check(self, item, st):
        def fn():
            for name, data in item:
                if data is None:
                    os.makedirs(name)
                elif name.startswith('>'):
                    os.symlink(data, name[1:])
                else:
                    self.write(name, data)
            try:
                return look(False, 0), look(
                    False, 1)
            except Crash as e:
                return str(e)
        for name in os.listdir('.'):
            if os.path.isdir(name) and not os.path.islink(name):
                os.rmdir(name)
            else:
                os.unlink(name)
        try:
            ret = impl.in_child(fn)
        except impl.ChildDied as e:
            ret = str(e)
        if isinstance(ret, str):
            raise Violation(ret[-1500:], 'status 0 or 1', item, repr(item))
        st.step(ret)
        st.outcome(ret, bool(ret[0][1]))


class LoudSpace(CrashSpace):
    """The real command line, with real file descriptors."""
    hang = 200

    def check(self, item, st):
        _, docs = item
        argvs = []
        for n, data in enumerate(docs):
            os.makedirs('l%d' % n, exist_ok=True)
            name = 'l%d/a.conf' % n
            self.write(name, data)
            odbc = 'l%d/odbc.conf' % n
            self.write(odbc, data)
            argvs.append(['dialplan-check', name])
            argvs.append(['dialplan-show', name])
            argvs.append(['modules-show', name])
            argvs.append(['ident-scan', '-v', name])
            argvs.append(['func_odbc-check', odbc])
        proc = subprocess.run(
            [sys.executable, '-B', RUNNER, core.REPO],
            input=pickle.dumps({'preload': True, 'argvs': argvs}, 4),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if proc.returncode:
            raise Violation('the command line cannot be run', 0,
                            proc.stderr[-1000:], 'runner')
        for argv, (rc, out, err) in zip(argvs, pickle.loads(proc.stdout)):
            if rc not in (0, 1) or b'Traceback' in out + err:
                with open(argv[-1], 'rb') as f:
                    data = f.read()
                raise Violation(
                    '{} ends with status {}: {}'.format(
                        argv[0], rc, err[-300:]), 'status 0 or 1',
                    data[:3000], repr((argv, data[:300])))
            st.step((argv[0], rc, len(err.split(b'\n'))))
            st.outcome((argv[0], rc, out[:30], err[-30:]), bool(rc))
        st.count += len(argvs) - 1


def grouped(docs, size, odbc=False):
    docs = iter(docs)
    while True:
        batch = list(itertools.islice(docs, size))
        if not batch:
            break
        yield odbc, batch


def spaces(tier):
    quick = tier == 'quick'
    positions = list(POSITIONS) + list(ODBC_POSITIONS)

    def token_items():
        for position in positions:
            yield position, 'tokens', (), 0
            yield position, 'tokens', (), 1
            for one in (CORE if quick else TOKENS):
                yield position, 'tokens', (one,), 1
            if not quick:
                for two in itertools.product(TOKENS, repeat=2):
                    yield position, 'tokens', two, 1

    def core_items():
        some = positions
        if quick:
            some = ['exten', 'pattern', 'prio', 'app', 'arg', 'assign',
                    'jump', 'if', 'execif', 'var', 'slice', 'func', 'write',
                    'expr']
        for position in some:
            if quick:
                few = CORE[:12]
                for one in few:
                    yield position, 'few', (one,), 2
            else:
                for two in itertools.product(CORE, repeat=2):
                    yield position, 'core', two, 2

    def line_items():
        depth = 2 if quick else 3
        yield from grouped((b'\n'.join(i) + b'\n' for i in sequences(
            LINES, depth)), 200)
        yield from grouped((G + b'\n'.join(i) for i in sequences(
            LINES, depth)), 200)
        yield from grouped((b'\r\n'.join(i) for i in sequences(
            ODBC_LINES, depth)), 200, True)
        if quick:
            yield from grouped((b'\n'.join(i) for i in sequences(
                LINES[:24], 3, 3)), 200)

    def byte_items():
        every = [bytes([i]) for i in range(256)]
        for position in positions:
            yield position in ODBC_POSITIONS, [
                fill(position, i) for i in every]
        some = every if not quick else every[:64] + every[0x7b:0xa2:3] + [
            b'\xc3', b'\xe2', b'\xed', b'\xef', b'\xf0', b'\xf4', b'\xff']
        yield from grouped((a + b for a in some for b in some), 256)
        yield from grouped((a + b for a in some for b in some), 256, True)

    def name_items():
        for name in names('apps'):
            yield False, app_docs(name)
        for name in names('funcs'):
            yield False, func_docs(name)

    def pump_items():
        for position in positions:
            for token in PUMP:
                for tail in ((b'',) if quick else (b'', b'a', b')', b'\\')):
                    for n in ((40, 1500) if quick else (40, 1500, 6000)):
                        if b'\n' in token and n > 1500:
                            continue
                        yield position, token, n, tail

    def pair_items():
        # Two tokens that go together badly.
        some = ['file', 'exten', 'pattern', 'prio', 'app', 'arg', 'if',
                'execif', 'var', 'slice', 'func', 'expr', 'include',
                'comment', 'label', 'hash', 'odbc-value', 'odbc-head']
        alphabet = CORE if quick else TOKENS
        for position in some:
            for one in alphabet:
                yield (position in ODBC_POSITIONS, [
                    fill(position, (one + two) * 60 + b'!')
                    for two in alphabet if two != one])

    def large_items():
        for n in ((101, 1200) if quick else (
                20, 60, 99, 100, 101, 200, 500, 1000, 2000, 4000, 10000)):
            for name, _ in large(1):
                if n > 4000 and name in ('patterns', 'jumps'):
                    continue
                yield name, n

    def file_items():
        inc = [b'#include "%s"\n', b'#tryinclude %s\n', b'#include <%s>\n']
        targets = [b'b.conf', b'none.conf', b'dir', b'*.x', b'/dev/null',
                   b'./b.conf', b'../', b'', b'dir/b.conf', b'link',
                   b'loop', b'/', b'~', b'a\0b', b'x' * 300, b'\xc3\xa9',
                   b'\xff', b'b.conf/c', b'.', b'%s', b'{}', b'$A', b'-',
                   b'a.conf', b'dir/../a.conf']
        bodies = [b'', b'[i]', b'[i]\nexten => s,1,NoOp\n', b'\xff\0\r\n\r',
                  b';--\n', b'#include "c.conf"\n[k]\n', b'same => n,NoOp()',
                  b'#include a.conf\n' * 3 + b'#include "b.conf"\n' * 2,
                  b'#include "none"\n#include "c.conf"\n#include "c.conf"']
        heads = [b'', G]
        tails = [b'', b'same => n,Goto(x,1)\n']
        for head in heads:
            for how in inc:
                for target in targets:
                    for body in bodies[:3] + bodies[5:6] if quick else bodies:
                        for tail in tails:
                            yield (('dir', None), ('b.conf', body),
                                   ('c.conf', b'[c]\nsame => n,A\n'),
                                   ('>link', 'b.conf'), ('>loop', 'loop'),
                                   ('a.conf', head + how.replace(
                                       b'%s', target) + tail))
        # All graphs of three files, with every file included a few times.
        for graph in itertools.product(range(8), repeat=3):
            for times in (1, 4) if quick else (1, 4, 9):
                yield tuple(
                    (name, b'[%d]\n' % i + b''.join(
                        b'#include "' + other + b'"\n'
                        for j, other in enumerate(
                            (b'a.conf', b'b.conf', b'c.conf'))
                        if graph[i] & (1 << j)) * times)
                    for i, name in enumerate(('a.conf', 'b.conf', 'c.conf')))
        # Chains and trees of files.
        for n in (3, 50, 300) if quick else (3, 50, 300, 900):
            yield tuple([('a.conf', b'#include "f0"\n')] + [
                ('f%d' % i, b'[c%d]\n#include "f%d"\nsame => n,A' % (i, i + 1))
                for i in range(n)])
            yield tuple([('a.conf', b''.join(
                b'#include "f%d"\n' % i for i in range(n)))] + [
                ('f%d' % i, b'[c%d]\n' % i) for i in range(n)])

    def loud_items():
        docs = []
        for position in positions:
            for token in (b'', b'\xc3\xa9', b'\xff', b'{', b'}', b'{0}',
                          b'%s', b'\0', b'\xf0\x9f\x98\x80', b'\xed\xa0\x80',
                          b'\xc2\x85', b'\x1b[0m', b'\xe2\x80\xa8', b'\\x'):
                docs.append(fill(position, token))
        return grouped(docs, 12)

    TokenSpace.alphabets['few'] = CORE[:12]
    ret = [
        TokenSpace('tokens', 'all sequences of up to {} of {} tokens in {} '
                   'positions x commands{}'.format(
                       2 if quick else 3, len(TOKENS), len(positions),
                       ' (the first of two out of %d)' % len(CORE)
                       if quick else ''),
                   token_items),
        TokenSpace('core', 'all sequences of {} of {} tokens in {} positions '
                   'x commands'.format(
                       3 if quick else 4, 12 if quick else len(CORE),
                       14 if quick else len(positions)), core_items),
        DocSpace('lines', 'all documents of up to {} lines of {} (dialplan) '
                 'and {} (func_odbc) lines, with and without a proper '
                 'start'.format(2 if quick else 3, len(LINES),
                                len(ODBC_LINES)), line_items),
        DocSpace('bytes', 'every byte in every position; {} pairs of bytes '
                 'as the document'.format('many' if quick else 'all'),
                 byte_items),
        DocSpace('names', 'every application and function x {} forms of '
                 'arguments'.format(len(SHAPES)), name_items),
        PumpSpace('pump', '{} tokens repeated up to {} times in every '
                  'position'.format(len(PUMP), 1500 if quick else 6000),
                  pump_items),
        DocSpace('pairs', 'all pairs of {} tokens, 60 times in a row'.format(
            len(CORE if quick else TOKENS)), pair_items),
        LargeSpace('large', 'large and deeply nested structures of up to {} '
                   'parts'.format(1200 if quick else 10000), large_items),
        FilesSpace('files', 'kinds of #include x names x contents; chains of '
                   'files', file_items),
        LoudSpace('loud', 'characters that are hard to print, in every '
                  'position, on the real command line', loud_items),
    ]
    return ret
