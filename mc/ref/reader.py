"""
Reference for reading files: lines, encodings, line endings, comments.
"""

UNDEFINED_CP1252 = {0x81, 0x8d, 0x8f, 0x90, 0x9d}
CTRL = set(range(0x20)) - {9, 10, 13}


def utf8_valid(raw):
    """RFC 3629, table 3-7 of the Unicode standard; by hand."""
    i, n = 0, len(raw)
    while i < n:
        b = raw[i]
        if b < 0x80:
            i += 1
            continue
        if 0xc2 <= b <= 0xdf:
            rest, lo, hi = 1, 0x80, 0xbf
        elif b == 0xe0:
            rest, lo, hi = 2, 0xa0, 0xbf
        elif b == 0xed:
            rest, lo, hi = 2, 0x80, 0x9f
        elif 0xe1 <= b <= 0xef:
            rest, lo, hi = 2, 0x80, 0xbf
        elif b == 0xf0:
            rest, lo, hi = 3, 0x90, 0xbf
        elif 0xf1 <= b <= 0xf3:
            rest, lo, hi = 3, 0x80, 0xbf
        elif b == 0xf4:
            rest, lo, hi = 3, 0x80, 0x8f
        else:
            return False
        if i + rest >= n:
            return False
        if not lo <= raw[i + 1] <= hi:
            return False
        for j in range(2, rest + 1):
            if not 0x80 <= raw[i + j] <= 0xbf:
                return False
        i += rest + 1
    return True


def decode(raw):
    """Returns (text, is_bad)."""
    if utf8_valid(raw):
        return raw.decode('utf-8'), False
    return ''.join(
        '\ufffd' if b in UNDEFINED_CP1252 else bytes([b]).decode('cp1252')
        for b in raw), True


def strip_eol(text):
    if text.endswith('\r\n'):
        return text[:-2]
    if text.endswith('\n'):
        return text[:-1]
    return text


class LineMachine(object):
    """
    Consumes chunks of bytes; produces lines and the messages about them.
    State: (mode, lineno, partial line, whether the last line had a LF).
    """
    INIT = (None, 0, b'', None)

    @staticmethod
    def step(state, chunk, out):
        mode, lineno, part, has_lf = state
        part += chunk
        while True:
            pos = part.find(b'\n')
            if pos < 0:
                return (mode, lineno, part, has_lf)
            raw, part = part[:pos + 1], part[pos + 1:]
            mode, lineno, has_lf = LineMachine.line(mode, lineno, raw, out)

    @staticmethod
    def line(mode, lineno, raw, out):
        lineno += 1
        lf = raw.endswith(b'\n')
        crlf = raw.endswith(b'\r\n')
        if mode is None:
            mode = 'dos' if (crlf or not lf) else 'unix'
        ids = []
        text, bad = decode(raw)
        if bad:
            ids.append('E_FILE_UTF8_BAD')
        if any(b in CTRL for b in raw):
            ids.append('W_FILE_CTRL_CHAR')
        if mode == 'dos' and lf and not crlf:
            ids.append('W_FILE_DOS_BARELF')
        if mode == 'unix' and crlf:
            ids.append('W_FILE_UNIX_CRLF')
        out.append((lineno, raw, strip_eol(text), ids))
        return mode, lineno, lf

    @staticmethod
    def finish(state, out):
        mode, lineno, part, has_lf = state
        if part:
            mode, lineno, has_lf = LineMachine.line(mode, lineno, part, out)
        if out:
            if mode == 'dos' and has_lf:
                out[-1][3].append('W_FILE_DOS_EOFCRLF')
            if mode == 'unix' and not has_lf:
                out[-1][3].append('W_FILE_UNIX_NOLF')
        return out


def read_file(data):
    """[(lineno, raw, text, [ids])] for a complete file."""
    out = []
    return LineMachine.finish(
        LineMachine.step(LineMachine.INIT, data, out), out)


class CommentMachine(object):
    """
    Splits one line (no line ending) into data and comment, character by
    character. State: (in comment?, data so far, comment so far).
    """
    INIT = (False, '', '')

    @staticmethod
    def step(state, ch):
        in_comment, data, comment = state
        if in_comment:
            return (True, data, comment + ch)
        if ch == ';':
            if data.endswith('\\'):
                # Only a literal backslash can be at the end here: an
                # unescaped ';' never leaves one.
                return (False, data[:-1] + ';', '')
            return (True, data, ';')
        return (False, data + ch, '')

    @staticmethod
    def finish(state):
        """Returns (data, comment, ids)."""
        in_comment, data, comment = state
        ids = []
        if in_comment:
            stripped = comment.rstrip(' \t')
            if stripped != comment:
                ids.append('W_WSH_EOL')
            if data and data[-1] not in ' \t':
                ids.append('W_WSH_COMMENT')
            kept = data.rstrip(' \t')
            return kept, data[len(kept):] + stripped, ids
        kept = data.rstrip(' \t')
        if kept != data:
            ids.append('W_WSH_EOL')
        return kept, '', ids


def comment_split(text):
    state = CommentMachine.INIT
    for ch in text:
        state = CommentMachine.step(state, ch)
    return CommentMachine.finish(state)
