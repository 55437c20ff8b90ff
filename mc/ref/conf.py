"""
Reference for configuration lines and for the vertical layout.
"""
from .reader import comment_split, read_file

DIRECTIVES = ('#include', '#tryinclude', '#exec')


def lstrip(text):
    # Beware: str.strip() and str.isspace() do not agree everywhere.
    n = 0
    while n < len(text) and text[n].isspace():
        n += 1
    return text[n:]


def rstrip(text):
    return lstrip(text[::-1])[::-1]


def classify(data):
    """
    Line (without comment) => (element, [ids]). The element is one of:
    ('blank',) ('ctx', name, has_template) ('var', key, arrow, value)
    ('pp', cmd, name) ('bad',)
    """
    body = lstrip(data)
    lead = data[:len(data) - len(body)]
    bol = ['W_WSH_BOL'] if lead else []
    if not body:
        return ('blank',), []

    # Header: [name] or [name](template)
    if body[0] == '[' and ']' in body:
        name, tail = body[1:].split(']', 1)
        if not tail:
            return ('ctx', name, False), bol
        tail = lstrip(tail)
        if (tail[0:1] == '(' and tail[-1] == ')' and len(tail) > 2 and
                ')' not in tail[1:-1] and '+' not in tail[1:-1]):
            return ('ctx', name, True), bol + ['I_NOTIMPL_TEMPLATES']

    # Assignment: the first '=' is the operator.
    if '=' in data:
        left, right = data.split('=', 1)
        arrow = right.startswith('>')
        if arrow:
            right = right[1:]
        key, value = rstrip(left), lstrip(right)
        before, after = left[len(key):], right[:len(right) - len(value)]
        ids = []
        if arrow:
            if (before, after) != (' ', ' '):
                ids.append('W_WSH_OBJSET')
        elif before or after:
            ids.append('W_WSH_VARSET')
        trimmed = key.lstrip(' \t')
        if trimmed != key:
            if trimmed != 'same':
                ids.append('W_WSH_BOL')
            key = trimmed
        return ('var', key, arrow, value), ids

    if body[0] == '#':
        return classify_pp(body, bol)
    return ('bad',), ['E_CONF_BAD_LINE']


def classify_pp(body, ids):
    for cmd in DIRECTIVES:
        if body.startswith(cmd):
            rest = body[len(cmd):]
            break
    else:
        return ('bad',), ids + ['E_CONF_BAD_LINE']
    arg = rest
    while arg and ord(arg[0]) <= 32:
        arg = arg[1:]
    blanks = rest[:len(rest) - len(arg)]
    if not blanks or not arg:
        return ('bad',), ids + ['E_CONF_BAD_LINE']
    if set(blanks) != {' '} and set(blanks) != {'\t'}:
        ids = ids + ['W_WSH_CTRL']
    quoted = len(arg) > 1 and arg[0] + arg[-1] in ('""', '<>')
    if quoted:
        arg = arg[1:-1]
    elif arg[0] in '<"' or arg[-1] in '>"':
        ids = ids + ['W_PP_QUOTE_BAD']
    if cmd == '#exec':
        ids = ids + ['W_PP_EXEC']
    return ('pp', cmd, arg), ids


class Layout(object):
    """
    The vertical layout of one file. Feed it 'ctx', 'var', 'blank' and
    'comment' elements with their line numbers; it yields messages.

    State: (anything but blanks seen?, variables in this context, runs)
    where runs are the (kind, lines) since the last header or variable.
    """
    def __init__(self):
        self.bof = True
        self.nvars = 0
        self.runs = []
        self.msgs = []

    def state(self):
        return (self.bof, min(self.nvars, 3),
                tuple((k, min(len(v), 4)) for k, v in self.runs))

    def feed(self, kind, lineno):
        if kind in ('blank', 'comment'):
            if self.runs and self.runs[-1][0] == kind:
                self.runs[-1][1].append(lineno)
            else:
                self.runs.append((kind, [lineno]))
            return
        if kind == 'ctx':
            limit, id_ = 2, 'H_WSV_CTX_BETWEEN'
            if self.nvars > 2 and not self.runs:
                self.msgs.append((lineno, id_))
            self.nvars = 0
        else:
            limit, id_ = 1, 'H_WSV_VARSET_BETWEEN'
            self.nvars += 1
        runs, self.runs = self.runs, []
        if self.bof and runs and runs[0][0] == 'blank':
            self.msgs.append((runs[0][1][0], 'W_WSV_BOF'))
            runs = runs[1:]
        self.bof = False
        for k, lines in runs:
            if k == 'blank' and len(lines) > limit:
                self.msgs.append((lines[-1], id_))

    def eof(self, resumed=True):
        """
        End of file. ``resumed`` is False if this file was not read any
        further after its last include.
        """
        runs, self.runs = self.runs, []
        if runs and runs[-1][0] == 'blank':
            if resumed:
                self.msgs.append((runs[-1][1][-1], 'W_WSV_EOF'))
            runs = runs[:-1]
        for k, lines in runs:
            if k == 'blank' and len(lines) > 2:
                self.msgs.append((lines[-1], 'H_WSV_CTX_BETWEEN'))


def read_elements(data):
    """
    A single file: [(lineno, element, has_comment)], [(lineno, id)]
    without the vertical layout.
    """
    elements, msgs = [], []
    for lineno, raw, text, ids in read_file(data):
        line, comment, cids = comment_split(text)
        element, eids = classify(line)
        elements.append((lineno, element, bool(comment)))
        msgs.extend((lineno, i) for i in ids + cids + eids)
    return elements, msgs


def layout_messages(elements):
    lay = Layout()
    for lineno, element, comment in elements:
        if element[0] == 'blank':
            lay.feed('comment' if comment else 'blank', lineno)
        elif element[0] in ('ctx', 'var'):
            lay.feed(element[0], lineno)
    lay.eof()
    return lay.msgs
