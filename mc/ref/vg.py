"""
Configuration files as VoIPGRID has them, according to the docstrings of
contrib/commands/vg.py.
"""
import re


def split(line):
    """
    Data and comment of a line (without whitespace at the end). There are
    no escapes, except for being inside of something.
    """
    nest = ''
    for i, ch in enumerate(line):
        if nest[-1:] and nest[-1] in '"\'':
            # In quotes, until the same quote.
            if ch == nest[-1]:
                nest = nest[:-1]
        elif ch in '"\'(':
            nest += ch
        elif ch == ')':
            if nest:
                nest = nest[:-1]
        elif ch == ';' and not nest:
            break
    else:
        i = len(line)
    data = line[0:i].rstrip(' \t')
    return data, line[len(data):]


def read(text):
    """
    [(number of first line, data, comment, lines)] and the numbers of the
    lines with findings: {(lineno, id)}. Without includes.
    """
    ret, found = [], []
    open_ = False  # may there be more?
    for n, line in enumerate(text.split('\n'), 1):
        if line[-1:] in (' ', '\t'):
            found.append((n, 'W_WSH_EOL'))
        stripped = line.rstrip(' \t')
        data, comment = split(stripped)
        if comment and data and not comment.startswith((' ', '\t')):
            found.append((n, 'W_WSH_COMMENT'))
        if line[0:1] in (' ', '\t') and line and open_:
            n0, data0, comment0, count = ret[-1]
            if not data0:
                found.append((n, 'W_WSH_BOL'))
            ret[-1] = (n0, data0 + data, comment0 + comment, count + 1)
        else:
            ret.append((n, data, comment, 1))
            open_ = not data.startswith('#')
    if text.endswith('\n') or not text:
        assert ret[-1][1:] == ('', '', 1), ret
        ret.pop()
    return ret, sorted(found)


def standard(text):
    """
    The same as a file for Asterisk. Comments lose what they say.
    """
    out = ''
    for _, data, comment, count in read(text)[0]:
        out += data.replace(';', '\\;') + (' ;x' if comment else '')
        out += '\n' * count
    return out


def context(line):
    m = re.match(r'\s*\[([^]]*)\](?:\s*\([^)+]+\))?$',
                 line.split(' ;')[0].rstrip(' \t'))
    return m and m.group(1)


def wiped(text):
    """
    A standard file without the contexts that occur again.
    """
    lines = text.split('\n')
    last = dict((context(line), n) for n, line in enumerate(lines))
    out, keep = [], True
    for n, line in enumerate(lines):
        if context(line) is not None:
            keep = (last[context(line)] == n)
        out.append(line if keep else '')
    return '\n'.join(out)
