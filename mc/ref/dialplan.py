"""
Reference for the dialplan: a machine that is fed configuration elements
and that knows which lines are accepted, with which priority and label.
"""
from . import pattern as refpat
from .conf import read_elements

# The messages that this machine is about.
IDS = frozenset((
    'I_NOTIMPL_HINT', 'I_NOTIMPL_IGNOREPAT', 'I_NOTIMPL_SWITCH',
    'E_DP_PAT_INVALID', 'E_DP_PAT_MISSING', 'E_DP_PRIO_INVALID',
    'E_DP_PRIO_MISSING', 'E_DP_PRIO_DUPE', 'E_DP_LABEL_INVALID',
    'E_DP_GLOBALS_DUPE', 'E_DP_LABEL_DUPE', 'W_DP_PRIO_BADORDER',
    'H_DP_GENERAL_MISPLACED', 'H_DP_GLOBALS_MISPLACED', 'H_CONF_NO_ARROW',
    'E_CONF_KEY_INVALID', 'E_CONF_CTX_MISSING', 'W_CONF_CTX_DUPE',
    'E_DP_VAR_INVALID', 'E_DP_PRIO_BAD', 'E_DP_INCLUDE_POSITION',
    'E_CONF_BAD_LINE', 'I_NOTIMPL_TEMPLATES', 'E_CONF_KEY_DUPE',
    'W_CONF_KEY_LATE', 'H_CONF_HAS_ARROW'))


class Entry(object):
    def __init__(self, raw, prio, label, app, lineno):
        self.raw, self.prio, self.label = raw, prio, label
        self.app, self.lineno = app, lineno
        self.key = refpat.parse(raw)

    def __repr__(self):
        return repr((self.raw, self.prio, self.label, self.app,
                     self.lineno))


class Ctx(object):
    def __init__(self, name):
        self.name = name
        self.entries = []
        self.includes = []
        self.fresh = True       # no priority since it was (re)opened
        self.prios = set()      # (dupe key, prio)
        self.labels = set()     # (dupe key, label)


class Plan(object):
    def __init__(self):
        self.contexts = []
        self.byname = {}
        self.general = self.globals = False
        self.last = None        # last valid priority
        self.cur = None         # None, 'special' or Ctx
        self.msgs = []
        self.quotes = {}        # what these messages say of the line
        self.attempts = []      # (lineno, app) of all parsed applications

    def state(self):
        return (
            self.last, self.general, self.globals,
            self.cur.name if isinstance(self.cur, Ctx) else self.cur,
            tuple((c.name, c.fresh, tuple(c.includes), tuple(
                (e.key, e.prio, e.label) for e in c.entries))
                for c in self.contexts))

    def say(self, lineno, id_, *quotes):
        self.msgs.append((lineno, id_))
        self.quotes[lineno, id_] = quotes

    def feed(self, lineno, el):
        if el[0] == 'ctx':
            self.header(lineno, el[1])
        elif el[0] == 'var':
            if self.cur is None:
                self.say(lineno, 'E_CONF_CTX_MISSING')
            elif self.cur != 'special':
                self.line(lineno, el[1], el[2], el[3])

    def header(self, lineno, name):
        self.cur = 'special'
        if name == 'general':
            if self.general:
                self.say(lineno, 'W_CONF_CTX_DUPE')
            elif self.globals or self.contexts:
                self.say(lineno, 'H_DP_GENERAL_MISPLACED')
            self.general = True
        elif name == 'globals':
            if self.globals:
                self.say(lineno, 'E_DP_GLOBALS_DUPE')
            elif not self.general or self.contexts:
                self.say(lineno, 'H_DP_GLOBALS_MISPLACED')
            self.globals = True
        else:
            if name not in self.byname:
                self.byname[name] = Ctx(name)
                self.contexts.append(self.byname[name])
            self.cur = self.byname[name]
            self.cur.fresh = True

    def line(self, lineno, key, arrow, value):
        if key not in ('exten', 'same', 'include', 'switch', 'ignorepat'):
            return self.say(lineno, 'E_CONF_KEY_INVALID', repr(key))
        if not arrow:
            self.say(lineno, 'H_CONF_NO_ARROW')
        if key == 'include':
            self.cur.includes.append(value)
        elif key == 'switch':
            self.say(lineno, 'I_NOTIMPL_SWITCH')
        elif key == 'ignorepat':
            self.say(lineno, 'I_NOTIMPL_IGNOREPAT')
        elif key == 'exten' and ',' not in value:
            self.say(lineno, 'E_DP_PRIO_MISSING')
        elif key == 'exten':
            pat, rest = value.split(',', 1)
            self.exten(lineno, pat or None, rest)
        else:
            self.exten(lineno, None, value)

    def exten(self, lineno, pat, rest):
        prio, _, app = rest.partition(',')
        label = None
        if '(' in prio:
            prio, label = prio.split('(', 1)
        if prio == 'hint':
            return self.say(lineno, 'I_NOTIMPL_HINT')
        if prio != 'n' and not refpat.is_number(prio):
            return self.say(lineno, 'E_DP_PRIO_INVALID', repr(prio))
        if label is not None:
            if label[-1:] != ')':
                return self.say(lineno, 'E_DP_LABEL_INVALID', repr(label))
            label = label[:-1]
        self.attempts.append((lineno, app))

        ctx = self.cur
        if pat is not None:
            if not refpat.is_valid(refpat.parse(pat)):
                self.say(lineno, 'E_DP_PAT_INVALID')
        elif ctx.entries:
            pat = ctx.entries[-1].raw
        else:
            return self.say(lineno, 'E_DP_PAT_MISSING')
        key = refpat.parse(pat)

        disorder = False
        if prio == 'n':
            if not self.last:
                return self.say(lineno, 'E_DP_PRIO_MISSING')
            disorder = ctx.fresh or ctx.entries[-1].key != key
            prio = self.last + 1
        else:
            prio = int(prio[:30])
            if prio == 0:
                return self.say(lineno, 'E_DP_PRIO_INVALID', '0')
            if prio > 1:
                own = [e.prio for e in ctx.entries if e.key == key]
                disorder = not own or own[-1] not in (prio - 1, prio)
        if disorder:
            self.say(lineno, 'W_DP_PRIO_BADORDER', repr(pat),
                     'unset' if rest[:1] == 'n' else str(prio))
        self.last = prio
        ctx.fresh = False

        same = refpat.dupe_key(pat)
        if (same, prio) in ctx.prios:
            return self.say(lineno, 'E_DP_PRIO_DUPE', str(prio))
        ctx.prios.add((same, prio))
        if label:
            if (same, label) in ctx.labels:
                self.say(lineno, 'E_DP_LABEL_DUPE', repr(label))
                label = None
            else:
                ctx.labels.add((same, label))
        ctx.entries.append(Entry(pat, prio, label or '', app, lineno))

    def finish(self):
        if self.contexts:
            if not self.general:
                self.say(0, 'H_DP_GENERAL_MISPLACED')
            if not self.globals:
                self.say(0, 'H_DP_GLOBALS_MISPLACED')
        return self

    def show(self, reverse=False):
        """
        The listing.
        """
        ret = []
        for ctx in (reversed(self.contexts) if reverse else self.contexts):
            ret.append("[ Context %r created by 'pbx_config' ]" % ctx.name)
            groups = {}
            for e in ctx.entries:
                groups.setdefault(e.key, []).append(e)
            for key in sorted(groups, key=lambda k: refpat.sort_key(
                    groups[k][0].raw)):
                group = sorted(groups[key], key=lambda e: e.prio)
                for n, e in enumerate(group):
                    app = e.app
                    app += '' if '(' in e.app else '('
                    app += '' if ')' in e.app else ')'
                    if n == 0:
                        head = "  %-17s" % ("'%s' =>" % e.raw)
                    else:
                        head = '     %-14s' % (
                            '[%s]' % e.label if e.label else '')
                    ret.append('%s %-45s [pbx_config]' % (
                        head, '%d. %s' % (e.prio, app)))
            for inc in ctx.includes:
                ret.append("  %-17s %-45s [pbx_config]" % (
                    'Include =>', "'%s'" % inc))
            ret.append('')
        return '\n'.join(ret)


def run(data, st=None):
    elements, msgs = read_elements(data)
    plan = Plan()
    for lineno, el, comment in elements:
        plan.feed(lineno, el)
        if st is not None:
            st.step(plan.state())
    plan.msgs.extend(msgs)
    plan.finish()
    plan.msgs.sort()
    return plan
