"""
Reference for extension patterns: a sequence of character (byte) sets.
"""
BAD, DOT, BANG = 'bad', '.', '!'
WILD = {'X': frozenset(b'0123456789'), 'Z': frozenset(b'123456789'),
        'N': frozenset(b'23456789')}


def set_members(body):
    """b'a-cx' => the characters meant."""
    ret, i = set(), 0
    while i < len(body):
        if i + 2 < len(body) and body[i + 1] == 0x2d:
            lo, hi = sorted((body[i], body[i + 2]))
            ret.update(range(lo, hi + 1))
            i += 3
        else:
            ret.add(body[i])
            i += 1
    return frozenset(ret)


def parse(raw):
    """
    str => (is_pattern, (item, ...)). An item is a frozenset of bytes,
    DOT, BANG or BAD.
    """
    data = raw.encode('utf-8')
    if data[0:1] != b'_':
        return False, tuple(frozenset((i,)) for i in data if i != 0x2d)
    items, i = [], 1
    while i < len(data):
        ch = chr(data[i])
        i += 1
        if ch == '-':
            continue
        elif ch.upper() in WILD:
            items.append(WILD[ch.upper()])
        elif ch in (DOT, BANG):
            items.append(ch)
        elif ch == '[':
            end = data.find(b']', i)
            if end < 0:
                items.append(BAD)
                break
            items.append(set_members(data[i:end]) or BAD)
            i = end + 1
        else:
            items.append(frozenset((ord(ch),)))
    return True, tuple(items)


def is_valid(pat):
    return BAD not in pat[1]


def matches(pat, exten):
    """
    Nondeterminism-free matching; ``exten`` is a str.
    """
    digits = [i for i in exten.encode('utf-8', 'surrogateescape')
              if i != 0x2d]
    is_pattern, items = pat
    pos = 0
    for item in items:
        if item == DOT:
            return pos < len(digits)
        if item == BANG:
            return True
        if item == BAD or pos == len(digits) or digits[pos] not in item:
            return False
        pos += 1
    return pos == len(digits)


def dashless(raw):
    """Without the dashes outside of sets."""
    if not raw.startswith('_'):
        return raw.replace('-', '')
    ret, i = '', 0
    while i < len(raw):
        if raw[i] == '[' and ']' in raw[i + 1:]:
            end = raw.index(']', i + 1)
            ret += raw[i:end + 1]
            i = end + 1
        else:
            if raw[i] != '-':
                ret += raw[i]
            i += 1
    return ret


def dupe_key(raw):
    """
    Equal if and only if two patterns mean the same: a pattern without
    anything special means the same as the literal.
    """
    is_pattern, items = parse(raw)
    if BAD in items:
        return ('bad', raw)
    if (is_pattern and items and
            all(isinstance(i, frozenset) and len(i) == 1 for i in items)):
        is_pattern = False
    return (is_pattern, items)


def sort_key(raw):
    is_pattern, items = parse(raw)
    ret = []
    for item in items:
        if item == DOT:
            ret.append((1000,))
        elif item == BANG:
            ret.append((2000,))
        elif item == BAD:
            ret.append((4000,))
        else:
            ret.append((len(item), sorted(item)))
    if is_pattern:
        ret.append((3000,))
    return (is_pattern, ret)


def example(pat):
    """
    Some number that matches: the lowest character of every set (but not
    a dash, as that does not match).
    """
    ret = []
    for item in pat[1]:
        if item == DOT:
            ret.extend(b'0-123456789-333')
        elif item == BANG:
            ret.extend(b'-123456789-333')
        elif item != BAD:
            ret.append(min(item - {0x2d} or item))
    return bytes(ret).decode('utf-8', 'surrogateescape')


def plain(pat):
    """
    Write a valid pattern with every item as an explicit set or wildcard,
    or None if there is no such thing.
    """
    if not pat[0]:
        return None
    ret = '_'
    for item in pat[1]:
        if item in (DOT, BANG):
            ret += item
        elif 0x5d in item or max(item) > 0x7f:
            if len(item) > 1:
                return None
            ret += chr(min(item))
        else:
            rest = sorted(item - {0x2d})
            ret += '[' + ''.join(chr(i) for i in rest) + (
                '-' if 0x2d in item else '') + ']'
    return ret


def is_number(text):
    return bool(text) and not set(text) - set('0123456789')
