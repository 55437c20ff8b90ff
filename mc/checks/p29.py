"""
P29: vg, which reads files the way VoIPGRID has them.
"""
import itertools
import os

from .. import core, impl
from ..core import FnSpace, Space, Violation, near_documents, sequences
from ..ref import vg as ref
from ..stubs import install_editdistance

ASSUMPTIONS = [
    'messages about whitespace between lines, and about the ends of lines '
    'are left aside',
    'which messages there are about a context that is replaced is left '
    'aside',
    'editdistance is not installed: the stand-in of P23 is used',
]


class Vg(object):
    """The module, and what there was before it."""
    def __init__(self):
        import asterisklint
        self.plain = dict(
            (i, getattr(asterisklint, i)) for i in (
                'FileConfigParser', 'FileDialplanParser',
                'FileFuncOdbcParser'))
        from asterisklint.main import load_command
        self.module = load_command('vg', os.path.join(
            core.REPO, 'contrib', 'commands', 'vg.py'))
        self.vg = dict((i, getattr(asterisklint, i)) for i in self.plain)
        self.reader = self.module.VoipgridFileReader


_vg = []


def vg():
    if not _vg:
        _vg.append(Vg())
    return _vg[0]


def load(class_, files):
    impl.reset()
    parser = class_(opener=impl.opener_for(files))
    parser.include('a.conf')
    return list(parser)


# ---- What is read

def check_read(text, st):
    got = [(where.filename, where.lineno, data, comment)
           for where, data, comment in load(
               vg().reader, {'a.conf': text.encode('utf-8')})]
    messages = sorted((n, id_) for _, n, id_ in impl.messages()
                      if id_.startswith('W_WSH_'))
    lines, found = ref.read(text)
    want = [('a.conf',) + i[0:3] for i in lines]
    if got != want:
        raise Violation('%r is read differently' % text, want, got)
    if messages != found:
        raise Violation('%r has other findings' % text, found, messages)
    st.step(repr(want))
    st.outcome(repr((want, found)), len(want) != text.count('\n') or any(
        i[3] for i in want))


# ---- What becomes of it

def seen_conf(contexts):
    return [(c.name, c.where.filename, c.where.lineno, c._templates,
             bool(c.comment),
             [(v.variable, v.value, v.arrow, bool(v.comment),
               v.where.filename, v.where.lineno) for v in c])
            for c in contexts]


def seen_dialplan(dialplans):
    dialplan, = dialplans
    dialplan.walk_jump_destinations()
    return list(dialplan.format_as_dialplan_show()), [
        (i.name, i.where.lineno) for i in dialplan.contexts]


def seen_odbc(functions):
    return [(f.get_function_name(), sorted(
        (k, v._query) for k, v in f.get_queries().items()))
        for f in functions] + seen_conf(functions)


SEEN = {'FileConfigParser': seen_conf, 'FileDialplanParser': seen_dialplan,
        'FileFuncOdbcParser': seen_odbc}


def findings():
    return [i for i in impl.messages(text=True)
            if not i[2].startswith((
                'W_WSV_', 'H_WSV_', 'W_WSH_', 'W_FILE_'))]


def check_same(class_, files, st):
    """files: {name: text}"""
    standard, wiped = {}, {}
    for name, text in files.items():
        standard[name] = ref.standard(text)
        wiped[name] = ref.wiped(standard[name])
    got = SEEN[class_](load(vg().vg[class_], dict(
        (k, v.encode('utf-8')) for k, v in files.items())))
    got_found = findings()
    want = SEEN[class_](load(vg().plain[class_], dict(
        (k, v.encode('utf-8')) for k, v in wiped.items())))
    if got != want:
        raise Violation('%r becomes something else than %r does' % (
            files, wiped), want, got)
    want_found = findings()
    if wiped != standard:
        # What is found in the contexts that stay. (That labels of other
        # contexts are still known, is known.)
        want_found, got_found = [
            [i for i in found
             if not i[2].startswith(('H_DP_', 'E_DP_GOTO_NOLABEL'))
             and wiped[i[0]].split('\n')[i[1] - 1]]
            for found in (want_found, got_found)]
    if got_found != want_found:
        raise Violation('%r has other findings than %r' % (
            files, wiped), want_found, got_found)
    st.step(repr(want))
    st.outcome(repr((want, got_found)), standard != files)


def check_conf(text, st):
    check_same('FileConfigParser', {'a.conf': text}, st)


def check_dialplan(text, st):
    check_same('FileDialplanParser', {'a.conf': text}, st)


def check_odbc(text, st):
    check_same('FileFuncOdbcParser', {'a.conf': text}, st)


def check_include(item, st):
    main, other = item
    check_same('FileConfigParser', {'a.conf': main, 'b.conf': other}, st)


# ---- Commands

def in_vg(name, args):
    install_editdistance()
    module = vg().module
    impl.MessageDefManager.muted = False
    with impl.Capture() as cap:
        try:
            status = module.main([name] + list(args), {})
        except SystemExit as e:
            status = e.code
    return status or 0, cap.stdout, cap.stderr


def in_plain(name, args):
    install_editdistance()
    return impl.run_loud(name, *args)


class CommandSpace(impl.Forked, Space):
    name = 'commands'
    bound = ('the commands and others that do not exist x files x '
             'arguments, with and without vg')
    commands = ('dialplan-check', 'dialplan-show', 'modules-show',
                'ident-scan', 'func_odbc-check')
    load = False
    other = ('nonexistent', 'Dialplan-check', '../vg', '', '__init__')

    def items(self):
        for name in self.commands + self.other:
            # What is used by something that was replaced is used.
            for n in range(len(FILES) - (name in (
                    'modules-show', 'ident-scan'))):
                for args in ((), ('x.conf',), ('nonexistent.conf',), ('-h',),
                             ('--nonexistent', 'x.conf'),
                             ('x.conf', 'extra', 'args'),
                             ('--ignore', 'H_', 'x.conf'),
                             ('--func-odbc', 'y.conf', 'x.conf'),
                             ('--func-odbc=', 'x.conf')):
                    yield name, n, args

    def setup_worker(self):
        install_editdistance()
        super().setup_worker()

    def check(self, item, st):
        name, n, args = item
        text, text_odbc = FILES[n]
        files = {'extensions.conf': text, 'func_odbc.conf': text_odbc,
                 'x.conf': text_odbc if name.startswith('func') else text,
                 'y.conf': text_odbc.replace('[', '[Y')}
        self.put(dict((k, v.encode()) for k, v in files.items()))
        got = impl.in_child(in_vg, name, args)
        if name in self.other:
            if got[0] == 1 and not got[1] and 'Traceback' not in got[2] and (
                    repr(name) in got[2]):
                st.step(name)
                st.outcome(got[2], True)
                return
            raise Violation('vg %r is not refused' % name, None, got,
                            repr(item))
        self.put(dict((k, ref.wiped(ref.standard(v)).encode())
                      for k, v in files.items()))
        want = impl.in_child(in_plain, name, args)
        if '_WSV_' in want[2] + got[2]:
            want, got = (None,) + want[1:], (None,) + got[1:]
        want, got = [(i[0], i[1], sorted(
            j for j in i[2].split('\n') if '_WSV_' not in j and (
                ' W_WSH_' not in j))) for i in (want, got)]
        if want != got:
            raise Violation('vg %s %s does something else' % (
                name, ' '.join(args)), want, got, repr(item))
        st.step(repr((name, want)))
        st.outcome(repr(want), n > 0)


G = '[general]\n\n[globals]\n\n'
FILES = [
    (G + '[a]\nexten => s,1,NoOp(${ODBC_F(1)})\n', '[F]\nreadsql=SELECT 1\n'),
    (G + '[a]\nexten => s,1,NoOp(${ODBC_F(1)}\n    ${ODBC_Z()})\n',
     '[F]\nreadsql=SELECT (1; 2)\n  FROM x\n[G]\nbad\n'),
    (G + '[a]\nexten => s,1,Goto(b,s,1)\n\n[b]\nexten => s,1,NoOp(";")\n'
     ' same => n,NoOp()\nexten => s,n,Nope(1) ; c\n',
     '[F]\nreadsql=SELECT 1\n  ;\n  1\n[F_]\nread=x;y\n'),
    (G + '[b]\nexten => t,1,Hangup()\n\n[a]\nexten => s,1,Goto(b,s,1)\n\n'
     '[b]\nexten => s,1,NoOp(";")\n',
     '[F]\nreadsql=SELECT 1\n[F]\nreadsql=SELECT 2\n'),
]


def spaces(tier):
    quick = tier == 'quick'

    def line_items():
        for i in sequences('a"\'();\\ ', 6 if quick else 7):
            yield ''.join(i)

    def end_items():
        # Some that are in quotes, and some that are not.
        for i in sequences('a"(); ', 4):
            for j in sequences(['a', ' ', '\t', ';', '"', '(', ')'], 3):
                for end in ('', '\n'):
                    yield ''.join(i) + '\n' + ''.join(j) + end

    lines = ['[a]', '[b] ;x', 'a=b', ' c', '\td ; e', '', ' ', '; c', ' ;d',
             'e => (f;', ' g;)', '#x']

    def fold_items():
        for seq in sequences(lines, 4 if quick else 5):
            yield '\n'.join(seq)
            yield '\n'.join(seq) + '\n'

    dp = ['[a]', '[b]', '[general]', '[globals]', 'exten => s,1,NoOp(";")',
          'exten => t,1,Goto(b,s,1) ; x', ' same => n,Foo()', 'include => b',
          ' ; x', '']

    def dp_items():
        for seq in sequences(dp, 5 if quick else 6):
            yield '\n'.join(seq) + '\n'

    odbc = ['[A]', '[B]', '[_c]', 'readsql=SELECT (1;2)', 'writesql=W;x',
            '  WHERE x', 'dsn=d', ' ;', '']

    def odbc_items():
        for seq in sequences(odbc, 5 if quick else 6):
            yield '\n'.join(seq) + '\n'

    def include_items():
        main = ['[a]', 'x=y', ' z', '#include b.conf', '']
        other = ['[b]', 'o=p', ' q', '; r', '']
        for seq in sequences(main, 4 if quick else 5):
            if '#include b.conf' not in seq or seq.count('[a]') > 1:
                continue
            text = '\n'.join(seq)
            # Whether lines are continued in other files is another matter.
            if 'b.conf\n ' in text:
                continue
            for seq2 in sequences(other, 3):
                if '[b]' in seq2 and seq.count('#include b.conf') > 1:
                    continue
                for end in itertools.product(('', '\n'), repeat=2):
                    yield text + end[0], '\n'.join(seq2) + end[1]

    folded = ('[a]', 'x = "p;q" (r;s) \'t;u\' ; v', '  w;x', '[a] ; y',
              'k => (v \t', '\t"o\'p" ;z', '; c', '#include nofile')
    folded_dp = ('[general]', '[globals]', '[a]',
                 'exten => s,1,NoOp(";"x) ; c', ' same => n,Foo()',
                 'exten => s,n(x),Goto(b,', '  s,1)', '[b]',
                 'exten => s,1,NoOp()', 'include => a', '[c]')
    folded_odbc = ('[A]', 'dsn=d', 'readsql=SELECT (1;2)', '  FROM "t;u"',
                   '[B_1]', 'writesql = W ; c', '[A]', "insertsql=I ';'")

    def edits(document, again=True):
        for seq in near_documents(document):
            text = '\n'.join(seq) + '\n'
            # With fewer contexts, the priority before n is another one.
            if again or ref.wiped(text) == text:
                yield text

    return [
        FnSpace('edits', 'all single edits of a file of %d lines'
                % len(folded), lambda: edits(folded), check_read),
        FnSpace('edits-conf', 'the same files, and what they have',
                lambda: edits(folded), check_conf),
        FnSpace('edits-dialplan', 'all single edits of a dialplan of %d '
                'lines' % len(folded_dp), lambda: edits(folded_dp, False),
                check_dialplan),
        FnSpace('edits-odbc', 'all single edits of a func_odbc file of %d '
                'lines' % len(folded_odbc), lambda: edits(folded_odbc),
                check_odbc),
        FnSpace('lines', 'all lines of up to %d of 8 characters' % (
            6 if quick else 7), line_items, check_read),
        FnSpace('two-lines', 'all lines of up to 4 of 6 characters and '
                'lines of up to 3 of 7 characters after that', end_items,
                check_read),
        FnSpace('folds', 'all files of up to %d of %d lines' % (
            4 if quick else 5, len(lines)), fold_items, check_read),
        FnSpace('conf', 'the same files, and what they have', fold_items,
                check_conf),
        FnSpace('dialplan', 'all dialplans of up to %d of %d lines' % (
            5 if quick else 6, len(dp)), dp_items, check_dialplan),
        FnSpace('odbc', 'all func_odbc files of up to %d of %d lines' % (
            5 if quick else 6, len(odbc)), odbc_items, check_odbc),
        FnSpace('include', 'files of up to %d of 5 lines with an include '
                'of files of up to 3 of 5 lines' % (4 if quick else 5),
                include_items, check_include),
        CommandSpace(),
    ]
