"""
P17: the modules that the dialplan needs, by the real command in a process
of its own.
"""
import re

from mc import impl
from mc.core import Space, Violation, sequences
from mc.ref import apps as refapps
from mc.ref import dialplan as refdp

ASSUMPTIONS = [
    'which module has which application and function is that of the pinned '
    'commit (mc/ref/tables.json)',
    'every application that is parsed counts, also if the line it is on is '
    'dropped as a duplicate',
    'the name "Unknown" is left out: the test suite has it as an existing '
    'application',
]
TABLE = refapps.TABLES['v13']
APPS = [n for m in sorted(TABLE['apps']) for n in sorted(TABLE['apps'][m])
        if n != 'Unknown']
FUNCS = [n for m in sorted(TABLE['funcs']) for n in sorted(TABLE['funcs'][m])
         if n != 'UNKNOWN']
HEAD = '[general]\n[globals]\n[a]\nexten => s,1,%s\n'
RE_ITEMS = re.compile(r'^;   (.{20,}?)  (\S.*)$')
RE_LOAD = re.compile(r'^load => (\S+)\.so$')


def expected(texts, functions):
    """
    What is used: modules of applications, of functions; unknown ones.
    """
    model = refapps.Model('v13', functions)
    for text in texts:
        model.line(text)
    apps, funcs = {}, {}
    for lower in model.used_apps:
        if lower in model.apps:
            name, mod = model.apps[lower]
            if lower == 'background':
                name = model.background or name
            apps.setdefault(mod, set()).add(name)
    for lower in model.used_funcs:
        if lower in model.funcs and model.funcs[lower][0] != 'UNKNOWN':
            name, mod = model.funcs[lower]
            funcs.setdefault(mod, set()).add(name)
    return apps, funcs, set(
        t[0] if t else '(none)' for id_, t in model.msgs
        if id_ == 'E_APP_MISSING'), set(
            t[0] for id_, t in model.msgs if id_ == 'E_FUNC_MISSING')


def parse_output(out):
    """
    Returns [apps per module, funcs per module], load statements, unknown
    apps and functions.
    """
    used, load, unknown = [{}, {}], [], [[], []]
    into = module = None
    for line in out.split('\n'):
        m = RE_LOAD.match(line)
        if line in ('', ';'):
            into = None
        elif m:
            load.append(m.group(1))
        elif re.search('^; App.*modules used:$', line):
            into = used[0]
        elif re.search('^; Func.*modules used:$', line):
            into = used[1]
        elif re.search('unknown applications', line):
            into = unknown[0]
        elif re.search('unknown functions', line):
            into = unknown[1]
        elif line == '; modules.conf':
            into = None
        elif isinstance(into, list) and line.startswith(';   '):
            into.append(line[4:])
        elif isinstance(into, dict) and RE_ITEMS.match(line):
            name, items = RE_ITEMS.match(line).groups()
            if name.strip():
                module = name.strip()
                if module in into:
                    raise Violation('module %r is listed twice' % module)
                into[module] = []
            into[module] += [i for i in items.rstrip(',').split(', ')]
        else:
            raise Violation('line %r in the output' % line)
    return used, load, unknown


def judge(files, args, texts, functions, run, st):
    apps, funcs, bad_apps, bad_funcs = expected(texts, functions)
    status, out, err = run('modules-show', *args)
    used, load, unknown = parse_output(out)
    item = (files, args)

    def fail(what, want, got):
        raise Violation(what, want, got, repr(item))

    for what, want, got in (('applications', apps, used[0]),
                            ('functions', funcs, used[1])):
        want = dict((m, sorted(i + '()' for i in names))
                    for m, names in want.items())
        got = dict((m, sorted(names)) for m, names in got.items())
        if want != got:
            fail('other %s are shown' % what, want, got)
    want = sorted((set(apps) | set(funcs)) - {'<builtin>'})
    if load != want:
        fail('other modules are loaded', want, load)
    for what, want, got in (('applications', bad_apps, unknown[0]),
                            ('functions', bad_funcs, unknown[1])):
        if len(got) > 1 or (bool(want) != bool(got)) or (
                want and got[0] != ', '.join(sorted(want))):
            fail('other unknown %s are shown' % what, sorted(want), got)
    if status != int(bool(bad_apps or bad_funcs)):
        fail('the exit status is %r' % status, int(bool(
            bad_apps or bad_funcs)), status)
    outcome = (tuple(sorted(apps)), tuple(sorted(funcs)),
               tuple(sorted(bad_apps)), tuple(sorted(bad_funcs)))
    st.step(outcome)
    st.outcome(outcome, bool(apps or funcs))


class ModuleSpace(impl.Forked, Space):
    commands = ('modules-show',)

    def __init__(self, name, bound, items):
        self.name, self.bound, self._items = name, bound, items

    def items(self):
        return self._items()

    def check(self, item, st):
        files, args, texts, functions = item
        self.put(dict((k, v.encode('utf-8')) for k, v in files.items()))
        judge(files, args, texts, functions, self.run, st)


def doc(calls):
    """A dialplan with these, in a context."""
    return HEAD % 'NoOp()' + ''.join(
        'same => n,%s\n' % i for i in calls), ['NoOp()'] + list(calls)


def item(calls, functions=()):
    text, texts = doc(calls)
    return {'extensions.conf': text}, ('extensions.conf',), texts, functions


CALLS = [
    'Dial(a)', 'dial(${cut(a)})', 'Nope(${NOPE(a)})', 'nope()',
    'Set(CUT(a)=1)', 'ExecIf(${LEN(a)}?Playback(a):Wait(${NOPE2()}))',
    'Background(a)', 'BackGround(a)', 'Queue(${QUEUE_EXISTS(a)})',
    'Gosub(a,1)', 'NoOp', ' Hangup', 'Hangup ()', '${V}()', '',
    'NoOp(${SET(A=${CURL(a)})})', 'NoOp(${SET(SHELL(a)=1)})',
    'NoOp(${MD5(a', 'NoOp($[${MATH(1+1)}])', 'Page', 'SIPAddHeader(a)',
    'NoOp(${SIP_HEADER(a)})', 'ODBCFinish(${SQL_ESC(a)})',
    'Set(A=${${LEN(a)}(b)})', 'NoOp(${PJSIP_AOR(a)}${PJSIP_HEADER(a)})',
    'ExecIf(${V}?ExecIf(${V}?Read(a):Nope3()):Verbose(a))',
    'ReceiveFAX(${FAXOPT(a)})', 'NoOp(${ODBC_X(a)})',
    'Set(ODBC_FETCH(a)=${odbc_x(a)})', 'TryExec(Macro(a))',
    'NoOp(LEN(a))', 'Stasis(${unknown(a)})']

# Documents with the calls elsewhere.
ELSEWHERE = [
    '[a]\nexten => s,1,Dial(a)\nexten => s,1,Page(a)\n',
    '[a]\nexten => s,1,Dial(a)\nexten => s,bad,Page(a)\n',
    '[a]\nexten => s,hint,Page/a\nexten => s,1(a),Dial(a)\n',
    '[a]\nexten => s,1(a,Dial(a)\nexten => s,n(),Page(${CUT(a)})\n',
    '[a]\nexten => _[,1,Dial(a)\nsame => 2,Page(a)\n',
    '[a]\nsame => n,Dial(a)\nexten => s,n,Page(a)\n',
    '[a]\nfoo => s,1,Dial(a)\nignorepat => Page(a)\ninclude => Page(a)\n',
    '[globals]\na=${CUT(a)}\nexten => s,1,Dial(a)\n[a]\nexten => 1,1,Page\n',
    '[general]\nstatic=Dial(${CUT(a)})\n',
    '; exten => s,1,Dial(a)\n[a]\nexten => s,1,Page(a) ; Dial(${CUT(a)})\n',
    '[a]\nexten => s,1,Page(a)\n[b]\nexten => s,1,Dial(a)\n[a](+)\n'
    'exten => s,2,Queue(a)\n',
    '[a](!)\nexten => s,1,Dial(a)\n[b](a)\nexten => s,1,Page(a)\n',
    'exten => s,1,Dial(a)\n', '[a]\nexten => s,1\nexten => s,2,\n',
    '[a]\nexten = s,1,Dial(a)\nexten=>s,2,Page(a)\n', '', '[a]\n',
    '[macro-x]\nexten => s,1,Macro(a)\n[a]\nexten => ,1,Dial(a)\n',
    '[a]\nexten => s,1,Dial(a)\\; Page(a)\nexten => s,2,Page(a\\;b)\n',
    '[a]\nexten => s/123,1,Dial(${CALLERID(num)})\nexten => s,n(x),Page(a)\n',
    '#include "nope.conf"\n[a]\nexten => s,1,Dial(a)\n', '[a\n', '\xe9\n',
    '[a]\n#exec Dial(a)\nexten => s,1,Dial(\xe9${CUT(\xe9)})\n']

ODBC = [
    ('[X]\nreadsql=SELECT 1\n', [('ODBC_X', 'func_odbc')]),
    ('[X]\nprefix=MY\nwritesql=SELECT 1\n', [('MY_X', 'func_odbc')]),
    ('[x]\nreadsql=SELECT 1\n[Y]\nread=1\n',
     [('ODBC_x', 'func_odbc'), ('ODBC_Y', 'func_odbc')]),
    ('[X]\ndsn=a\n', []),
    ('', [])]
ODBC_CALLS = ['NoOp(${ODBC_X(a)})', 'Set(ODBC_X(a)=1)', 'NoOp(${odbc_x(a)})',
              'NoOp(${MY_X(a)})', 'Set(ODBC_Y(a)=${ODBC_Z(a)})', 'NoOp']


def spaces(tier):
    quick = tier == 'quick'

    def single_items():
        for name in APPS:
            for form in ('%s(a)', '%s', 'ExecIf(${V}?%s(a))', 'X%s(a)'):
                yield item([form % name])
            yield item([name.lower() + '(a)', name.upper() + '(a)'])
        for name in FUNCS:
            for form in ('NoOp(${%s(a)})', 'Set(%s(a)=1)', 'Nope(${%s(a)})',
                         'NoOp(${X%s(a)})'):
                yield item([form % name])
            yield item(['NoOp(${%s(a)})' % name.lower(),
                        'NoOp(${%s(a)})' % name.title()])

    def subset_items():
        # All of a module, all but one, all of everything.
        for table, form in ((TABLE['apps'], '%s(a)'),
                            (TABLE['funcs'], 'NoOp(${%s(a)})')):
            names = [n for m in sorted(table) for n in sorted(table[m])
                     if n.lower() != 'unknown']
            for m in sorted(table):
                mine = [form % i for i in sorted(table[m])
                        if i.lower() != 'unknown']
                if len(mine) > 1:
                    for k in range(1, len(mine) + 1):
                        yield item(mine[:k])
                        yield item(mine[k:])
                        yield item(mine[:k - 1] + mine[k:])
            for k in range(len(names)):
                yield item([form % i for i in names[:k] + names[k + 1:]])
            yield item([form % i for i in names + names])
            yield item([form % i for i in reversed(names)])
        yield item([i + '(a)' for i in APPS] +
                   ['Set(%s(a)=1)' % i for i in FUNCS])

    def call_items():
        for seq in sequences(CALLS, 2):
            yield item(seq)
        few = CALLS[:10]
        for seq in sequences(few, 3 if quick else 4, 3):
            yield item(seq)

    def place_items():
        for text in ELSEWHERE:
            plan = refdp.run(text.encode('utf-8'))
            texts = [i[1] for i in plan.attempts]
            yield ({'extensions.conf': text}, ('extensions.conf',), texts,
                   ())
            yield ({'extensions.conf': text}, (), texts, ())
            # In another file.
            yield ({'extensions.conf': '[general]\n#include b.conf\n',
                    'b.conf': text}, ('extensions.conf',), texts, ())
            for other in ELSEWHERE:
                both = [i[1] for i in refdp.run(
                    (text + other).encode('utf-8')).attempts]
                if text.endswith('\n') or not text:
                    yield ({'x.conf': text + other}, ('x.conf',), both, ())
                yield ({'x.conf': text + '#include d/y.conf\n',
                        'd/y.conf': other}, ('x.conf',), both, ())

    def odbc_items():
        for text, names in ODBC:
            for seq in sequences(ODBC_CALLS, 2 if quick else 3, 1):
                conf, texts = doc(seq)
                both = {'extensions.conf': conf, 'func_odbc.conf': text}
                for args, used in (
                        (('extensions.conf',), True),
                        (('./extensions.conf',), True),
                        ((), True),
                        (('--func-odbc', '', 'extensions.conf'), False),
                        (('--func-odbc=', 'extensions.conf'), False)):
                    yield both, args, texts, names if used else ()
                yield ({'d/extensions.conf': conf, 'd/func_odbc.conf': text},
                       ('d/extensions.conf',), texts, names)
                yield ({'d/extensions.conf': conf, 'func_odbc.conf': text},
                       ('d/extensions.conf',), texts, ())
                yield ({'d/extensions.conf': conf, 'func_odbc.conf': text},
                       ('d/extensions.conf', '--func-odbc',
                        'func_odbc.conf'), texts, names)
                yield ({'extensions.conf': conf, 'f.conf': text,
                        'func_odbc.conf': '[Z]\nread=1\n'},
                       ('--func-odbc=f.conf', 'extensions.conf'), texts,
                       names)

    return [
        ModuleSpace('single', '%d applications and %d functions x 5 forms'
                    % (len(APPS), len(FUNCS)), single_items),
        ModuleSpace('subsets', 'every beginning, end and all-but-one of a '
                    'module; all but one of everything', subset_items),
        ModuleSpace('calls', 'all sequences of up to 2 out of %d calls, 3 '
                    'out of 10' % len(CALLS), call_items),
        ModuleSpace('places', 'all pairs of %d documents, in a file or two'
                    % len(ELSEWHERE), place_items),
        ModuleSpace('func_odbc', '%d files x calls x ways to pass it'
                    % len(ODBC), odbc_items),
    ]
