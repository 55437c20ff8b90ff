"""
Reference for jumps: what is wrong with going to (context, exten, prio)?
The three are None or text with ${VARIABLES} in it.
"""
import re

from . import pattern as refpat

RE_VAR = re.compile(r'\$\{([A-Za-z0-9_]+)(?::(-?\d+))?(?::(-?\d+))?\}')


def has_var(text):
    return '${' in text


def substitute_exten(text, exten):
    """
    Fill in ${EXTEN}; if that does not leave unknowns.
    """
    def fill(m):
        name, start, length = m.groups()
        if name != 'EXTEN':
            raise KeyError(name)
        value = exten
        if start is not None:
            value = value[int(start[:30]):]  # like Asterisk, as is Python
            if length is not None:
                n = int(length[:30])
                value = value[:n] if n >= 0 else value[:max(
                    0, len(value) + n)]
        return value
    try:
        return RE_VAR.sub(fill, text)
    except KeyError:
        return text


def reachable(plan, ctx):
    ret, todo = [], [ctx]
    while todo:
        ctx = todo.pop()
        if ctx not in ret:
            ret.append(ctx)
            todo.extend(plan.byname[i] for i in ctx.includes
                        if i in plan.byname)
    return ret


def could_be(text, value):
    """
    Could this text with variables be that value?
    """
    pos = RE_VAR.split(text)[0::4]
    # Glob matching: the first and last part are anchored.
    if not value.startswith(pos[0]):
        return False
    value = value[len(pos[0]):]
    for part in pos[1:-1]:
        if part not in value:
            return False
        value = value[value.index(part) + len(part):]
    return value.endswith(pos[-1])


def judge(plan, ctxname, pat, jump):
    """
    Returns (id, text) or None.
    """
    context, exten, prio = jump
    example = refpat.example(refpat.parse(pat))
    if not context:
        context = ctxname
    if not exten:
        exten = example
    elif has_var(exten):
        exten = substitute_exten(exten, example)
    number = None
    if refpat.is_number(prio):
        number = int(prio[:30])
    shown = str(number) if number is not None else prio
    label = prio if number is None and not has_var(prio) else None
    where = '%s, %s, %s' % (context, exten, shown)

    if has_var(context):
        if label is not None and not any(
                label and label == e.label for c in plan.contexts for e in c.entries):
            return ('E_DP_GOTO_NOLABEL', 'label not found anywhere for '
                    'goto to ' + where)
        return None
    if context not in plan.byname:
        return ('E_DP_GOTO_NOCONTEXT', 'context not found for goto to ' +
                where)
    entries = [e for c in reachable(plan, plan.byname[context])
               for e in c.entries]
    if has_var(exten):
        if label is not None and not any(
                label and label == e.label for e in entries):
            return ('E_DP_GOTO_CONTEXT_NOLABEL', 'label not found in '
                    'context for goto to ' + where)
        return None

    def found(exten, number, label, var):
        for e in entries:
            if refpat.matches(e.key, exten):
                if number is not None and e.prio == number:
                    return True
                if label and e.label == label:
                    return True
                if var is not None and (
                        could_be(var, str(e.prio)) or
                        e.label and could_be(var, e.label)):
                    return True
        return False

    if found(exten, number, label,
             prio if number is None and label is None else None):
        return None
    if number is not None and exten != 'i' and found('i', 1, None, None):
        return None
    return ('W_DP_GOTO_CONTEXT_NOEXTEN', 'possibly non-existent '
            'extension/pattern for goto to ' + where)


IDS = ('E_DP_GOTO_NOLABEL', 'E_DP_GOTO_NOCONTEXT',
       'E_DP_GOTO_CONTEXT_NOLABEL', 'W_DP_GOTO_CONTEXT_NOEXTEN')


def messages(plan, jumps_of):
    """
    All messages: (lineno, id, text). ``jumps_of`` has the jumps of an
    application text.
    """
    ret = []
    for ctx in plan.contexts:
        for e in ctx.entries:
            for jump in jumps_of(e.app):
                msg = judge(plan, ctx.name, e.raw, jump)
                if msg:
                    ret.append((e.lineno,) + msg)
    ret.sort()
    return ret
