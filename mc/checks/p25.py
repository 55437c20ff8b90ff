"""
P25: the contributed rewriters do what the messages say, and nothing else.

The scripts are run on real files, in a process of their own each. What they
leave is compared to what they should: for every line we know where the
pattern or the conditional is, as we put it there.
"""
import ast
import io
import itertools
import os
import re
import runpy
import sys

from .. import core, impl
from ..core import Space, Violation, near, sequences
from .applines import chunks
from ..ref import (apps as refapps, dialplan as refdialplan,
                   pattern as refpattern)

PATTERN = os.path.join(core.REPO, 'contrib', 'make_patterns_canonical.py')
CONVERT = os.path.join(core.REPO, 'contrib', 'convert_dp_104_to_1100.py')


class ScriptSpace(impl.Forked, Space):
    script = None
    id_ = None
    hang = 60

    def __init__(self, name, bound, items, build):
        self.name, self.bound, self._items = name, bound, items
        self.build = build

    def items(self):
        return self._items()

    def setup_worker(self):
        super().setup_worker()
        import asterisklint.helper.mutator  # noqa: F401
        impl.dialplan(b'[general]\n[globals]\n[a]\nexten => 1,1,NoOp()\n')

    def rewrite(self, answer, main='a.conf'):
        """Returns None, or the name of what was raised."""
        def fn():
            sys.stdin = io.StringIO(answer)
            sys.argv = [self.script, main]
            with impl.Capture():
                try:
                    runpy.run_path(self.script, run_name='__main__')
                except SystemExit:
                    pass
                except Exception as e:
                    return repr(e)[:500]
        return impl.in_child(fn)

    def messages(self, files):
        """[(file, lineno, text)] of the messages about this."""
        def fn():
            impl.dialplan(files)
            return [(i[0], i[1], i[3]) for i in impl.messages(True)
                    if i[2] == self.id_]
        return fn()

    def contents(self, names):
        ret = {}
        for name in names:
            with open(name, 'rb') as f:
                ret[name] = f.read()
        return ret

    def left(self, names, key):
        extra = sorted(set(os.listdir('.')) - set(names))
        if extra:
            raise Violation('there are files left', [], extra, key)

    def check(self, item, st):
        files, lines, answer = self.build(item)
        self.put(files)
        key = repr(item)
        reported = set((os.path.normpath(i[0]), i[1])
                       for i in self.messages_of(files))
        error = self.rewrite(answer)
        if error and answer:
            part = item[0][0]
            if part in GIVES_UP and error.startswith('AssertionError(') and \
                    self.contents(files) == files:
                key = 'gives up: ' + part[0].strip()
            raise Violation('it ends with ' + error, None, None, key)
        now = self.contents(files)
        self.left(files, key)
        if answer != 'y\n':
            if now != files:
                raise Violation('files are changed after answering {!r}'
                                .format(answer), files, now, key)
            st.step((item, 'declined'))
            st.outcome(('declined', answer), True)
            return
        want = dict((name, self.expected(
            name, data, reported, lines)) for name, data in files.items())
        for name in files:
            a, b = want[name].split(b'\n'), now[name].split(b'\n')
            if a != b:
                raise Violation(
                    'line of {} is not what it should be'.format(name),
                    [i for i, j in zip(a, b) if i != j] or a,
                    [j for i, j in zip(a, b) if i != j] or b, key)
        self.afterwards(files, now, key)
        changed = tuple(sorted(i for i in files if files[i] != now[i]))
        st.step((item, changed))
        st.outcome((changed, len(reported)), bool(reported))

    def messages_of(self, files):
        # The names of the files, as they are included.
        extra = dict(files)
        for name in list(files):
            extra['./' + name] = files[name]
        return self.messages(extra)

    def expected(self, name, data, reported, lines):
        """
        lines: {(name, lineno): (old, new)} as far as there is something to
        rewrite. All of that should have been reported.
        """
        ret = []
        for n, line in enumerate(data.split(b'\n')):
            if (name, n + 1) in lines:
                old, new = lines[name, n + 1]
                if line.rstrip(b'\r') != old:
                    raise Violation('harness', old, line)
                if (name, n + 1) not in reported:
                    raise Violation('{} is not reported'.format(old), None,
                                    None, repr(old))
                line = new + line[len(old):]
            ret.append(line)
        return b'\n'.join(ret)

    def afterwards(self, old, new, key):
        raise NotImplementedError


def through(files, name='a.conf'):
    """The lines of all the files, in the order of reading."""
    for line in files[os.path.normpath(name)].split(b'\n'):
        m = re.match(br'^#include "(.*)"\r?$', line)
        if m:
            yield from through(files, m.group(1).decode('utf-8'))
        else:
            yield line


def plan_of(files):
    return refdialplan.run(b'\n'.join(through(files)) + b'\n')


class PatternSpace(ScriptSpace):
    script = PATTERN
    id_ = 'H_PAT_NON_CANONICAL'

    def afterwards(self, old, new, key):
        left = self.messages_of(new)
        if left:
            raise Violation('there are hints left', [], left, key)
        a, b = plan_of(old), plan_of(new)
        was, now = (
            [(c.name, c.includes, [
                (refpattern.dupe_key(e.raw), e.prio, e.label, e.app)
                for e in c.entries]) for c in plan.contexts]
            for plan in (a, b))
        if was != now:
            raise Violation('the dialplan is another one',
                            [a for a, b in zip(was, now) if a != b],
                            [b for a, b in zip(was, now) if a != b], key)


class ConvertSpace(ScriptSpace):
    script = CONVERT
    id_ = 'E_APP_ARG_IFSTYLE'

    def afterwards(self, old, new, key):
        left = self.messages_of(new)
        if left:
            raise Violation('there are reports left', [], left, key)


class EditedPatternSpace(PatternSpace):
    """
    The lines each have a context of their own. What is reported about a line
    has the pattern and its canonical form (see P09); the pattern is the first
    thing in the value.
    """
    HINT = re.compile(r'pattern (.+) is not in the canonical form (.+)$')

    def check(self, lines, st):
        data = START.encode('utf-8')
        where = {}
        for n, line in enumerate(lines):
            data += '[c{}]\n{}\n'.format(n, line).encode('utf-8')
            where[7 + 2 * n] = line
        files = {'a.conf': data}
        self.put(files)
        rows = data.split(b'\n')
        for _, lineno, text in self.messages_of(files):
            line = where.pop(lineno)
            old, new = map(
                ast.literal_eval, self.HINT.match(text).groups())
            head, tail = re.match(
                r'([^=]*=>?\s*)(.*)$', line, re.S).groups()
            old, new = (i.replace(';', '\\;') for i in (old, new))
            if not tail.startswith(old):
                raise Violation('{!r} is reported for {!r}'.format(old, line),
                                None, old, line)
            rows[lineno - 1] = (head + new + tail[len(old):]).encode('utf-8')
            st.step((old, new))
        error = self.rewrite('y\n')
        if error:
            raise Violation('it ends with ' + error, None, None, repr(lines))
        now = self.contents(files)
        self.left(files, repr(lines))
        got = now['a.conf'].split(b'\n')
        for n, row in enumerate(rows):
            if got[n:n + 1] != [row]:
                raise Violation(
                    '{!r} is rewritten wrongly'.format(
                        lines[max(0, n - 6) // 2]),
                    row, got[n:n + 1], lines[max(0, n - 6) // 2])
        if now['a.conf'] != b'\n'.join(rows):
            raise Violation('there is more in the file', None, got[len(rows):])
        self.afterwards(files, now, repr(lines))
        st.outcome(tuple(rows), len(where) != len(lines))


class Conditionals(refapps.Model):
    """
    Remembers the ExecIf calls that should have had a question mark.
    """
    def conditional(self, app, data):
        if app == 'ExecIf' and len(refapps.split(data, '?', True)) == 1:
            args = refapps.split(data, ',', False)
            if len(args) > 1:
                self.old.append((refapps.text_of(data),
                                 [refapps.text_of(i) for i in args]))
        super().conditional(app, data)


class EditedConvertSpace(ConvertSpace):
    """
    A line on its own. The reader of calls (see P12) says what the arguments
    are.
    """
    def check(self, line, st):
        data = (START2 + line + '\n').encode('utf-8')
        files = {'a.conf': data}
        self.put(files)
        new, fine = line, True
        reported = self.messages_of(files)
        if reported:
            entries = refdialplan.run(data).contexts[0].entries
            if len(entries) < 2:
                # It is not in the dialplan.
                return
            app = entries[-1].app
            model = Conditionals()
            model.old = []
            model.line(app)
            if len(model.old) != 1 or len(reported) != 1:
                raise Violation('%r is reported differently' % line,
                                model.old, reported, line)
            old, args = model.old[0]
            fine = not set(i[0] for i in model.msgs) & (
                refapps.BALANCE_IDS | refapps.VARIABLE_IDS |
                refapps.FUNCTION_IDS) and ':' not in ''.join(args[1:])
            if '(' + old in app:
                start = line.index(app) + app.index('(' + old) + 1
                new = '%s%s?%s(%s)%s' % (
                    line[:start], args[0], args[1], ','.join(args[2:]),
                    line[start + len(old):])
        error = self.rewrite('y\n')
        now = self.contents(files)
        self.left(files, line)
        st.step((line, bool(reported)))
        if error:
            # See GIVES_UP. Or the last parenthesis is not the end of it.
            if now != files or not reported or not (
                    new == line or not fine or
                    re.search(r'\$\{[^}]*:', line)) or \
                    not error.startswith('AssertionError('):
                raise Violation('it ends with ' + error, None, None, line)
            st.outcome('gives up', True)
            return
        want = (START2 + new + '\n').encode('utf-8')
        if now['a.conf'] != want:
            raise Violation('%r is rewritten wrongly' % line, want,
                            now['a.conf'], line)
        if fine:
            self.afterwards(files, now, line)
        st.outcome(new, bool(reported))


# ---- Patterns: (pattern, canonical form)

PATTERNS = [
    ('_[1-9]X', '_ZX'), ('_x', '_X'), ('_nzX.', '_NZX.'),
    ('_[0-9]!', '_X!'), ('_[2-9].', '_N.'), ('_[21]X', '_[12]X'),
    ('_12', '12'), ('1-2', None), ('_1-[1-9]', '_1Z'), ('_1-X', None), ('_[5]X', '_5X'),
    ('_[1-9]', '_Z'), ('_X\\;[0-9]', '_X\\;X'), ('_[31]=X', '_[13]=X'),
    ('_[ba]X', '_[ab]X'), ('_\u00e9[0-9]', '_\u00e9X'),
    ('_[1-9][1-9]', '_ZZ'), ('_[1234]X', '_[1-4]X'), ('_[1-9]>X', '_Z>X'),
    # And some that are fine.
    ('_ZX', None), ('s', None), ('_X.', None), ('123', None), ('_[13]', None),
]
FRAMES = [
    ('exten => ', ',1,NoOp()'), ('exten => ', ',1,NoOp({0})'),
    ('exten = ', ',n({0}),Goto({0},1)'), ('exten=>', ',1,NoOp(x={0})'),
    ('exten =>', ',1,NoOp() ; {0}'), ('  exten  =>\t', ',1,NoOp'),
    ('exten=', ',2,Set(a={0})'), ('exten => ', ',1,NoOp()  '),
    ('exten => ', ',0,NoOp()'), ('exten => ', ',1,exten => {0},1'),
    ('exten =>  ', ',1,NoOp(\\;{0}) ;=> {0}'), ('exten => ', ',1'),
    ('exten => ', ',1,NoOp(' + 'x' * 70000 + ')'),
]
START = '[general]\n\n[globals]\n\n[a]\n'
OTHER = [
    ' same => n,NoOp(_[1-9]X)', '; exten => _[1-9]X,1,NoOp()',
    '[_[1-9]X]', 'include => _[1-9]X', 'exten => _[1-9]X,hint,SIP/a',
    'ignorepat => _[1-9]X', '_[1-9]X = _[1-9]X', '',
    'exten => _[1-9]X', 'garbage _[1-9]X',
    ';-- exten => _[1-9]X,1,NoOp() --;',
]
EDITED = [
    'exten => _[1-9]X,1,NoOp(_[1-9]X)', 'exten=_x[0-9]-5,n(a),Goto(_x,1) ; c',
    '  exten  =>\t_[21][5],1,Foo(=>_[21])', 'exten => _5/_[4-3],1,exten => n',
]
B = '[b]\nexten => _[1-9]X,1,NoOp()\n same => n,NoOp(_[1-9]X)\n'
B_NEW = 'exten => _ZX,1,NoOp()'


def pattern_line(pat, frame):
    pattern, canonical = PATTERNS[pat]
    head, tail = FRAMES[frame]
    tail = tail.replace('{0}', pattern)
    old = head + pattern + tail
    new = None if canonical is None else head + canonical + tail
    return old, new


def assemble(parts, b=None, eol='\n', start=START, end='\n', bnew=None):
    """
    parts: [text or (old, new)]; b: None, or how it is included.
    Returns files, {(name, lineno): (old, new)}.
    """
    lines = start.split('\n')[:-1]
    changed = {}
    for part in parts:
        old, new = part if isinstance(part, tuple) else (part, None)
        lines.extend(old.split('\n'))
        if new is not None and new != old:
            changed['a.conf', len(lines)] = (
                old.encode('utf-8'), new.encode('utf-8'))
    for name in b or ():
        lines.append('#include "{}"'.format(name))
    files = {'a.conf': (eol.join(lines) + end).encode('utf-8')}
    if b:
        text, n, new = bnew
        files['b.conf'] = text.encode('utf-8')
        changed['b.conf', n] = (
            text.split('\n')[n - 1].encode('utf-8'), new.encode('utf-8'))
    return files, changed


def build_patterns(item):
    """
    (parts, how b is included, eol, end, answer); a part is a pair of
    numbers or a line.
    """
    parts, b, eol, end, answer = item
    parts = [pattern_line(*i) if isinstance(i, tuple) else i for i in parts]
    files, changed = assemble(parts, b, eol, START, end, (B, 2, B_NEW))
    return files, changed, answer


# ---- Conditionals

CONDS = ['${A}', '1', '$["${A}"="x"]', ' $[${A} & 2] ', '', '"a?b"',
         '${LEN(${A})}', '$[ ${A} < 3 || ${B:1:2} > 4 ]', '$["a,b" = 1]',
         '${CUT(A,,1)}']
CALLS = [('NoOp', ''), ('NoOp', 'a'), ('Set', 'A=b'), ('Goto', 's,1'),
         ('Set', 'A=${B:1}'), ('Set', 'A="x,y"'), ('NoOp', 'a\\;b'),
         ('Macro', 'x,${ARG1},$[${N} + 1]'), ('NoOp', '\u00e9'),
         ('NoOp', '(a,b)'), ('Dial', 'SIP/a&SIP/b,,tT'), ('NoOp', ' a , b '),
         ('NoOp', ','), ('Set', 'A=$[1 + 2]'), ('Set', 'CDR(a)=b'),
         ('NoOp', 'x:y'), ('noop', 'a\\,b'), ('NoOp', "it's")]
WRAPS = [
    ('exten => s,1,ExecIf(', ')'), (' same => n,ExecIf(', ')'),
    ('exten => s,1,execif(', ')'), ('exten => s,n(ExecIf),ExecIf(', ') '),
    ('exten => s,n,ExecIf(', ') ; {0}'), ('exten = s,1,EXECIF(', ') ; x'),
    (' same => n,ExecIf(1?ExecIf(', '))'),
    (' same => n,ExecIf(1?NoOp(x):ExecIf(', '))'),
]
# What comes before may look like it.
LOOKALIKES = [
    ('exten => s,1,ExecIf(s,1,E)', 'exten => s,1,ExecIf(s?1(E))'),
    ('exten => 1,2,ExecIf(1,2)', 'exten => 1,2,ExecIf(1?2())'),
    ('exten => 1,1,ExecIf(1,1,E)', 'exten => 1,1,ExecIf(1?1(E))'),
    ('exten => ${A},1,ExecIf(${A},1)', 'exten => ${A},1,ExecIf(${A}?1())'),
    (' same => n,ExecIf(n,E)', ' same => n,ExecIf(n?E())'),
]
GIVES_UP = [
    (' same => n,ExecIf(1?ExecIf(${A},Set,B="x"))',
     ' same => n,ExecIf(1?ExecIf(${A}?Set(B="x")))'),
    (' same => n,ExecIf(1?NoOp():ExecIf(${A},NoOp,a\\b))',
     ' same => n,ExecIf(1?NoOp():ExecIf(${A}?NoOp(a\\b)))'),
    (' same => n,ExecIf(${A:01},NoOp,a)', ' same => n,ExecIf(${A:01}?NoOp(a))'),
    (' same => n,ExecIf(${A},Set,B=${C:1:-0})',
     ' same => n,ExecIf(${A}?Set(B=${C:1:-0}))'),
]
EDITED2 = [
    ' same => n,ExecIf(${A},Set,B=c)', 'exten=ExecIf,n(A),execif($[${A}=1],'
    'Goto,s,1) ; ExecIf($[${A}=1],Goto,s,1)',
    'exten  =>  s,2, ExecIf(${ISNULL(${X:1})} ,Dial,A(x,y)[,],"a")x'
]
PLAIN = [
    ' same => n,ExecIf(${A}?NoOp(a))', ' same => n,NoOp(ExecIf(${A},NoOp,a))',
    '; same => n,ExecIf(${A},NoOp,a)', ' same => n,ExecIf(${A})',
    ' same => n,GotoIf(${A}?s,1)', 'include => ExecIf(a,NoOp,b)',
    '[ExecIf(1,NoOp,a)]\nexten => s,1,NoOp()', 'exten => s,hint,ExecIf(1,A,b)',
    ' same => n,ExecIf(${A}?Set(B=1):Set(B=2))', 'ExecIf(a,NoOp,b) = x',
   ';-- same => n,ExecIf(1,NoOp,a) --;', ' same => n,ExecIf()',
]
B2 = '[b]\nexten => s,1,NoOp()\n same => n,ExecIf(${X},Set,A=1)'
B2_NEW = ' same => n,ExecIf(${X}?Set(A=1))'
START2 = START + 'exten => s,1,NoOp()\n'


def convert_line(cond, call, wrap):
    cond = CONDS[cond]
    app, args = CALLS[call]
    head, tail = WRAPS[wrap]
    old = '{},{}'.format(cond, app)
    if args:
        old += ',' + args
    tail = tail.replace('{0}', old)
    return head + old + tail, '{}{}?{}({}){}'.format(
        head, cond, app, args, tail)


def build_converts(item):
    parts, b, eol, end, answer = item
    parts = [convert_line(*i) if isinstance(i, tuple) and len(i) == 3 else i
             for i in parts]
    files, changed = assemble(parts, b, eol, START2, end, (B2, 3, B2_NEW))
    return files, changed, answer


def spaces(tier):
    quick = tier == 'quick'
    hows = [None, ('b.conf',), ('b.conf', 'b.conf'), ('./b.conf',),
            ('b.conf', './b.conf')]
    ends = [('\n', '\n'), ('\n', ''), ('\r\n', '\r\n'), ('\r\n', '')]

    def one_pattern():
        for pat in range(len(PATTERNS)):
            for frame in range(len(FRAMES)):
                yield ((pat, frame),), None, '\n', '\n', 'y\n'
                if quick and pat % 3 and frame != pat % len(FRAMES):
                    continue
                for other in OTHER:
                    for b in ((None,) if quick else hows):
                        yield (other, (pat, frame)), b, '\n', '\n', 'y\n'

    def more_patterns():
        for two in itertools.product(range(len(PATTERNS)), repeat=2):
            yield tuple((i, 1) for i in two), None, '\n', '\n', 'y\n'
            if not quick:
                for frame in (0, 2, 4, 10):
                    yield ((two[0], frame), (two[1], 1)), None, '\n', '', \
                        'y\n'
        few = [(0, 1), (6, 2), (11, 1), (18, 1), OTHER[0], OTHER[1]]
        for seq in sequences(few, 3 if quick else 4):
            for b in hows[:3 if quick else None]:
                yield seq, b, '\n', '\n', 'y\n'
        for eol, end in ends:
            for answer in ('y\n', 'n\n', '\n', '', 'no\n', 'N\n'):
                for b in hows:
                    yield ((0, 1), OTHER[0], (11, 4)), b, eol, end, answer

    def one_convert():
        for cond in range(len(CONDS)):
            for call in range(len(CALLS)):
                for wrap in range(len(WRAPS)):
                    if quick and wrap > 3 and (cond + call) % 3:
                        continue
                    if wrap > 5 and re.search(
                            '["\'\\\\?]', CONDS[cond] + CALLS[call][1]):
                        # The outer application removes the quotes and
                        # backslashes; see GIVES_UP.
                        continue
                    yield ((cond, call, wrap),), None, '\n', '\n', 'y\n'
        # And what does not look the way it was parsed.
        for both in GIVES_UP:
            yield (both,), None, '\n', '\n', 'y\n'
        for plain in PLAIN:
            for call in range(len(CALLS)):
                yield (plain, (0, call, 1)), None, '\n', '\n', 'y\n'
        for lookalike in LOOKALIKES:
            yield (lookalike,), None, '\n', '\n', 'y\n'

    def more_converts():
        some = [(0, 1, 0), (0, 4, 1), (2, 5, 1), (1, 7, 6), (3, 3, 4)]
        for seq in sequences(some + PLAIN[:4], 3 if quick else 4):
            for b in hows[:2] + hows[4:] if quick else hows:
                yield seq, b, '\n', '\n', 'y\n'
        for eol, end in ends:
            for answer in ('y\n', 'n\n', '\n', '', 'no\n', 'N\n'):
                for b in hows:
                    yield ((0, 1, 0), PLAIN[1], (2, 5, 1)), b, eol, end, \
                        answer

    def edits(documents):
        for one in documents:
            for line in near(one):
                yield line

    return [
        EditedPatternSpace('edits', 'all single edits of %d lines'
                           % len(EDITED), lambda: chunks(
                               edits(EDITED), 100), None),
        EditedConvertSpace('edits-conditional', 'all single edits of %d '
                           'lines' % len(EDITED2), lambda: (
                               i for i in edits(EDITED2) if '\\' not in i
                               and i.count(';') < 2), None),
        PatternSpace('pattern', '{} patterns in {} lines, after {} other '
                     'lines'.format(len(PATTERNS), len(FRAMES), len(OTHER)),
                     one_pattern, build_patterns),
        PatternSpace('patterns', 'all pairs of patterns; up to {} lines out '
                     'of 6, with a second file; line endings and '
                     'answers'.format(3 if quick else 4), more_patterns,
                     build_patterns),
        ConvertSpace('conditional', '{} conditions x {} calls x {} lines; '
                     'other lines'.format(len(CONDS), len(CALLS),
                                          len(WRAPS)), one_convert,
                     build_converts),
        ConvertSpace('conditionals', 'all sequences of up to {} lines out of '
                     '9, with a second file; line endings and '
                     'answers'.format(3 if quick else 4), more_converts,
                     build_converts),
    ]
