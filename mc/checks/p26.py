"""
P26: the web service. A model of what it accepts, refuses and answers; and
a watch on the files that it opens.
"""
import builtins
import glob
import io
import itertools
import json
import os
import subprocess

from .. import core, impl
from ..core import FnSpace, Violation, near
from ..ref import conf
from ..webstub import Request, load_web

ASSUMPTIONS = [
    'falcon is not installed: a stand-in of the routing and of the request '
    'and response objects is used',
    'the size of a request is what its Content-Length says; requests '
    'without one are not judged by their size',
    'resolving links in the names of files is no access to them',
]

MAIN = 'extensions.conf'
URL = '/dialplan-check'
LIMIT = 64 * 1024
G = '[general]\n\n[globals]\n\n'


# ---- What it does with files

class Watch(object):
    """Records what is opened, listed and started."""
    names = [
        (builtins, 'open'), (io, 'open'), (io, 'FileIO'), (os, 'open'),
        (os, 'listdir'), (os, 'scandir'), (os, 'walk'), (os, 'system'),
        (os, 'popen'), (glob, 'glob'), (glob, 'iglob'),
        (subprocess, 'Popen'), (os, 'fork'), (os, 'unlink'), (os, 'remove'),
        (os, 'rename'), (os, 'replace'), (os, 'mkdir'), (os, 'symlink')]

    def __init__(self):
        self.log = []

    def __enter__(self):
        self.old = [(mod, name, getattr(mod, name))
                    for mod, name in self.names]
        for mod, name, fn in self.old:
            setattr(mod, name, self.wrap(name, fn))
        return self

    def __exit__(self, *args):
        for mod, name, fn in self.old:
            setattr(mod, name, fn)

    def wrap(self, name, fn):
        def wrapper(*args, **kwargs):
            # (It does get to see what is there; all of that is harmless.)
            if name in ('system', 'popen', 'Popen', 'fork', 'unlink',
                        'remove', 'rename', 'replace', 'mkdir', 'symlink'):
                self.log.append((name,) + tuple(map(repr, args[:1])))
                raise PermissionError(1, 'not in here')
            if not (args and str(args[0]).endswith(('.py', '.pyc'))):
                self.log.append((name,) + tuple(map(repr, args[:1])))
            return fn(*args, **kwargs)
        return wrapper


class WebSpace(FnSpace):
    hang = 60

    def setup_worker(self):
        impl.preload()
        self.app = load_web()
        with open(os.path.join(core.REPO, 'web', 'index.html')) as f:
            self.index = f.read()
        from asterisklint.alintver import version_str
        self.version = version_str
        # There are files that it should not get to see.
        self.scratch = impl.Scratch()
        self.cwd = os.getcwd()
        os.chdir(self.scratch.setup())
        os.makedirs('dir')
        for name in (MAIN, 'other.conf', 'dir/x.conf', 'dir/' + MAIN,
                     'func_odbc.conf'):
            self.scratch.write(
                name, b'[secret]\nexten => s,1,Secret()\nSECRET\n')
        os.symlink('other.conf', 'link.conf')

    def teardown_worker(self):
        os.chdir(self.cwd)
        self.scratch.teardown()

    def request(self, method, path, req):
        with Watch() as w:
            ret = self.app.request(method, path, req)
        if w.log:
            raise Violation('a request makes it access files', [], w.log)
        return ret

    def findings(self, text):
        """What there is to be found, [(lineno, class, description)]."""
        def opener(filename):
            if filename == MAIN:
                return impl.File(MAIN, text.encode('utf-8'))
            raise FileNotFoundError(filename)
        impl.dialplan(b'', main=MAIN, opener=opener)
        return [i[1:] for i in impl.messages(True)]

    def answer(self, what, media, want):
        """Judge the answer with the findings."""
        if not isinstance(media, dict) or set(media) != {
                'results', 'asterisklint'}:
            raise Violation('the answer {} has another shape'.format(what),
                            'results, asterisklint', str(media)[:1000])
        if media['asterisklint'] != {'version': self.version}:
            raise Violation('the answer {} has another version'.format(what),
                            {'version': self.version}, media['asterisklint'])
        results = media['results']
        if list(results) != [MAIN]:
            raise Violation('the answer {} is about other files'.format(
                what), [MAIN], list(results))
        for one in results[MAIN]:
            if set(one) != {'line', 'class', 'desc'}:
                raise Violation('a finding {} has another shape'.format(
                    what), 'line, class, desc', one)
        got = [(i['line'], i['class'], i['desc']) for i in results[MAIN]]
        if [i[0] for i in got] != sorted(i[0] for i in got):
            raise Violation('the findings {} are not sorted'.format(what),
                            sorted(got), got)
        if sorted(got) != want:
            raise Violation('the findings {} differ'.format(what), want,
                            sorted(got))


def refused(ret, statuses=('4', '5')):
    status, text = ret
    return status.startswith(statuses) and not text


def upload(text, more=None):
    files = {MAIN: text}
    files.update(more or {})
    return json.dumps({'files': files})


# ---- Requests

VALID = G + '[a]\nexten => s,1,NoOp()\n'
FOUND = G + '[a]\nexten => s,1,Nope()\n same => n,Goto(x)\n'


def padded(size):
    """A valid upload of exactly so many bytes."""
    body = upload(FOUND + ';' + 'x\n;' * 20)
    n = size - len(body)
    assert n >= 0
    return upload(FOUND + ';' + 'x\n;' * 20 + 'x' * n)


# name: (body, text if it is an acceptable one)
BODIES = {
    'valid': (upload(VALID), VALID),
    'found': (upload(FOUND), FOUND),
    'empty': (upload(''), ''),
    'more': (upload(FOUND, {'other.conf': 'junk', 'a': 1, '': None}), FOUND),
    'keys': (json.dumps({'files': {MAIN: FOUND}, 'x': [1], 'version': 'x'}),
             FOUND),
    'unicode': (upload('\u20ac\u2028\x85\U0001f600\n'),
                '\u20ac\u2028\x85\U0001f600\n'),
    'full': (padded(LIMIT), json.loads(padded(LIMIT))['files'][MAIN]),
    'fuller': (padded(LIMIT + 1), None),
    'large': (padded(LIMIT * 4), None),
    'none': ('', None),
    'nojson': ('{', None),
    'object': ('{}', None),
    'list': ('[]', None),
    'string': ('"files"', None),
    'null': ('null', None),
    'nofiles': ('{"files": {}}', None),
    'fileslist': ('{"files": ["extensions.conf"]}', None),
    'other': ('{"files": {"sip.conf": "[a]"}}', None),
    'case': ('{"files": {"Extensions.conf": "[a]"}}', None),
    'path': ('{"files": {"./extensions.conf": "[a]"}}', None),
    'nulltext': ('{"files": {"extensions.conf": null}}', None),
    'number': ('{"files": {"extensions.conf": 1}}', None),
    'listtext': ('{"files": {"extensions.conf": ["[a]"]}}', None),
    'surrogate': ('{"files": {"extensions.conf": "[a]\\n\\ud800"}}', None),
    'flat': ('{"extensions.conf": "[a]"}', None),
}
PATHS = {'/': 'index', '/healthz': 'health', '/healthz/': 'health',
         URL: 'check', URL + '/': 'check', '/nope': None, '/extensions.conf': None,
         '/index.html': None, '/static/../wsgi.py': None}


def request_items():
    for method in ('GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'OPTIONS'):
        for path in PATHS:
            for multithread in (False, True):
                for body in BODIES:
                    for length in (-1, 0, 1, LIMIT - 1, LIMIT, LIMIT + 1,
                                   1 << 20, 1 << 40, None):
                        # (What is really too large, and says it is not,
                        # is cut off by falcon.)
                        if (length not in (-1, None) and
                                len(BODIES[body][0]) > LIMIT):
                            continue
                        yield method, path, multithread, body, length


def check_request(self, item, st):
    method, path, multithread, body, length = item
    data, text = BODIES[body]
    req = Request(data, length, multithread)
    got = self.request(method, path, req)
    what = 'to {} {}'.format(method, path)
    # The model.
    place = PATHS[path]
    if multithread:
        want = 'refused'
    elif place in ('index', 'health') and method == 'GET':
        want = place
    elif place == 'check' and method == 'POST':
        if req.content_length is None:
            want = 'any' if text is not None or len(data) > LIMIT else (
                'refused')
        elif req.content_length > LIMIT or text is None:
            want = 'refused'
        else:
            want = 'findings'
    elif method in ('HEAD', 'OPTIONS'):
        want = 'nothing'
    else:
        want = 'refused'
    st.step((want, place, method, text is None))
    if want == 'any' and not refused(got):
        want = 'findings'
        text = text or json.loads(data)['files'][MAIN]
    if want == 'index':
        ok = got[0].startswith('200') and got[1] == self.index
    elif want == 'health':
        lines = got[1].split('\n')
        ok = (got[0].startswith('200') and lines[0] == 'OK' and
              lines[1] == 'asterisklint = ' + self.version)
    elif want == 'refused':
        ok = refused(got)
        if (req.content_length or 0) > LIMIT and place == 'check' and (
                method == 'POST') and not multithread:
            # It is too large, and not looked at.
            ok = ok and got[0].startswith('4') and not req.reads
    elif want == 'nothing':
        ok = 'results' not in got[1]
    elif want == 'findings':
        ok = got[0].startswith('200')
        if ok:
            self.answer(what, got[1], self.findings(text))
    else:
        ok = True
    if not ok:
        raise Violation('the answer {} is another one'.format(what), want,
                        (got[0], str(got[1])[:300]), repr(item))
    st.outcome((want, method, got[0]), want not in ('refused', 'any'))


# ---- Includes

NAMES = [
    'other.conf', './other.conf', 'dir/x.conf', 'dir/../other.conf', 'dir',
    'none.conf', 'link.conf', 'dir/extensions.conf', '@/other.conf',
    '@/dir/x.conf', '/etc/passwd', '/etc/hostname', '/dev/null',
    '/proc/self/environ', '..', '.', '/', '*.conf', '*', 'o*.conf',
    '~/x.conf', 'Extensions.conf', 'extensions.conf ', 'extensions.conf.d',
    'extensions', 'x\0y', '\u20ac', 'a' * 300, 'a b', '$HOME/x', '%s', '-',
    'func_odbc.conf', 'http://localhost/', 'data:,x', 'file:///etc/passwd',
    # The file itself, said in several ways.
    'extensions.conf', './extensions.conf', 'dir/../extensions.conf',
    '@/extensions.conf', './/extensions.conf',
    # No name at all.
    '']
HOWS = ['#include %s', '#include "%s"', '#include <%s>', '#tryinclude %s',
        '#tryinclude "%s"', '#tryinclude\t%s', ' #include %s',
        '#include    %s ;x', '#exec %s', '#exec "%s"', '#exec /bin/cat %s',
        '#include"%s"', '#Include %s', '#includes %s', ';#include %s',
        'include => %s', '#include => %s', '#include "%s', '#include %s"',
        '#include <%s', 'a=#include %s', '#', '#%s']
FRAMES = ['%s\n', G + '[a]\n%s\n', G + '[a]\nexten => s,1,NoOp()\n%s\n same =>'
          ' n,Goto(x)\n[b]\n', '%s', G + '[a]\n%s\n%s\n', ';--\n%s\n--;\n',
          'x\r\n%s\r\n', G + '#include extensions.conf\n%s\n',
          '%s\n#tryinclude other.conf\n', '#include none\n%s\n']


def targets(text):
    """The names that are included; according to the reader of P04."""
    return [e[2] for _, e, _ in conf.read_elements(text.encode('utf-8'))[0]
            if e[0] == 'pp' and e[1] != '#exec']


def same(name):
    """Is it a name for the uploaded file?"""
    return '\0' not in name and os.path.realpath(name) == (
        os.path.realpath(MAIN))


def include_items():
    for how in HOWS:
        for name in NAMES:
            for frame in FRAMES:
                for more in (False, True):
                    yield how, name, frame, more


def check_include(self, item, st):
    how, name, frame, more = item
    name = name.replace('@', self.scratch.path)
    line = how.replace('%s', name)
    text = frame.replace('%s', line)
    wanted = targets(text)
    itself = bool(wanted) and all(same(i) for i in wanted)
    files = {}
    if more:
        files = {'other.conf': '[a]\nSECRET\n', 'dir/x.conf': 'SECRET\n',
                 name: 'SECRET\n'}
        files.pop(MAIN, None)
    got = self.request('POST', URL, Request(upload(text, files)))
    st.step((bool(wanted), itself, how, frame))
    if 'SECRET' in str(got) or 'secret' in str(got):
        raise Violation('the answer tells what is in another file', None,
                        str(got)[:1000], repr(item))
    if wanted and (not itself or refused(got)):
        if not refused(got):
            raise Violation(
                'a file with an include is not refused', 'refused',
                str(got)[:1000], repr(item))
        st.outcome('refused', True)
        return
    # No include, or one of the file itself: that is a finding.
    if not got[0].startswith('200'):
        raise Violation('a file without an include is refused', '200',
                        got[0], repr(item))
    self.answer('about ' + repr(line), got[1], self.findings(text))
    st.outcome((how, str(got[1])), False)


# ---- Uploads

UPLOADS = [
    upload(G + '[a]\nexten => s,1,Nope()\n'),
    '{"files": {"other.conf": "[b]", "extensions.conf": "[a]\\n'
    'exten => s,1,noop()\\n#exec \\u20ac\\n"}, "x": {"y": [1, null]}}',
    upload('[a]\n#include "other.conf"\nx\n'),
]


def check_upload(self, body, st):
    """Any body at all."""
    try:
        text = json.loads(body)['files'][MAIN]
        text.encode('utf-8')
        text = text if isinstance(text, str) else None
    except (ValueError, TypeError, KeyError, IndexError, AttributeError):
        text = None
    got = self.request('POST', URL, Request(body))
    wanted = targets(text) if text is not None else []
    if text is None or wanted:
        if not refused(got) and not (wanted and all(map(same, wanted))):
            raise Violation('it is not refused', 'refused',
                            str(got)[:1000], body)
        st.step((text is None, bool(wanted)))
        st.outcome('refused', bool(wanted))
        return
    if not got[0].startswith('200'):
        raise Violation('it is refused', '200', got[0], body)
    want = self.findings(text)
    self.answer('about ' + repr(body), got[1], want)
    st.step(tuple(i[:2] for i in want))
    st.outcome(tuple(want), True)


def check_path(self, path, st):
    got = self.request('POST', path, Request(upload(VALID)))
    want = 'findings' if PATHS.get(path) == 'check' else 'refused'
    st.step((want, path))
    if want == 'refused':
        if not refused(got):
            raise Violation('a request to {!r} is answered'.format(path),
                            want, str(got)[:1000], path)
    elif not got[0].startswith('200'):
        raise Violation('a request to {!r} is refused'.format(path), want,
                        got[0], path)
    st.outcome(want, want == 'findings')


# ---- Documents

LINES = [
    '[general]', '[globals]', '[a]', '[b](+)', '[a', 'A=1', 'junk', '',
    ' ', ';c', ';--', '--;', 'exten => s,1,NoOp()', 'exten => s,1,noop',
    'exten => s,n(x),Nope(${A}', ' same => n,Goto(x)', 'same => n,Goto(y)',
    'exten => _[0-9]X.,1,Goto(a,1,1)', 'include => b', 'include => c',
    'exten => s,2,Set(A B=1)', 'exten => s,hint,SIP/a', '\u20ac=\u20ac',
    'a=b\r', '\x00', '\u2028', '\x85\x0b\x0c\x1c', '\r', '#exec x',
    'exten => s,1,NoOp({kw}{0}%s${LEN})', '"', '<b>&amp;</b>']


def document_items(n):
    for length in range(n + 1):
        for seq in itertools.product(range(len(LINES)), repeat=length):
            yield seq


def long_items():
    for n in (9, 10, 11, 98, 99, 100, 101, 300, 999, 1000, 1001, 3000):
        for a in LONG:
            for b in LONG:
                yield n, a, b


# Lines of long documents.
LONG = ['junk', 'exten => 2,1,noop', '[a]', ';c', '']


def check_long(self, item, st):
    n, a, b = item
    lines = [''] * n
    lines[0] = '[general]'
    lines[1] = '[globals]'
    lines[2] = '[a]'
    for i in range(3, n):
        lines[i] = a if i & (i - 1) == 0 or i in (9, 10, 99, 999) else (
            b if i in (11, 98, 100, 500) or i > n - 3 else ';')
    document(self, '\n'.join(lines), st)


def check_document(self, item, st):
    document(self, '\n'.join(LINES[i] for i in item), st)


def document(self, text, st):
    want = self.findings(text)
    got = self.request('POST', URL, Request(upload(text)))
    if not got[0].startswith('200'):
        raise Violation('the request is refused', '200', got[0], repr(text))
    self.answer('about {!r}'.format(text), got[1], want)
    st.step(tuple(i[:2] for i in want))
    st.outcome(tuple(want), bool(want))


def spaces(tier):
    quick = tier == 'quick'

    def space(name, bound, items, fn):
        ret = WebSpace(name, bound, items, None)
        ret._fn = lambda item, st: fn(ret, item, st)
        return ret
    depth = 3 if quick else 4
    return [
        space('requests', '6 methods x {} paths x threads x {} bodies x 9 '
              'lengths'.format(len(PATHS), len(BODIES)), request_items,
              check_request),
        space('includes', '{} directives x {} names x {} documents x with '
              'and without more files'.format(
                  len(HOWS), len(NAMES), len(FRAMES)), include_items,
              check_include),
        space('edits', 'all single edits of %d uploads' % len(UPLOADS),
              lambda: (i for one in UPLOADS for i in near(one)
                       if i[:1] != '\ufeff'),
              check_upload),
        space('paths', 'all single edits of the path', lambda: near(URL),
              check_path),
        space('documents', 'all documents of up to {} out of {} lines'.format(
            depth, len(LINES)), lambda: document_items(depth),
            check_document),
        space('long', 'documents of up to 3000 lines with pairs of lines out '
              'of {} at numbers of every length'.format(len(LONG)),
              long_items, check_long),
    ]
