"""
Reference for func_odbc.conf: a machine that is fed configuration elements.
"""
from .conf import read_elements

IDS = frozenset((
    'E_ODBC_NOSQL', 'W_ODBC_BADTOKENS', 'W_ODBC_LEGACY', 'W_ODBC_TAILSEMI',
    'E_CONF_KEY_INVALID', 'E_CONF_KEY_DUPE', 'W_CONF_KEY_LATE',
    'H_CONF_HAS_ARROW', 'E_CONF_CTX_MISSING', 'E_CONF_BAD_LINE'))

KEYS = ('prefix', 'synopsis', 'dsn', 'escapecommas', 'mode', 'rowlimit',
        'readhandle', 'writehandle', 'readsql', 'writesql', 'insertsql',
        'read', 'write')
SQL = ('readsql', 'writesql', 'insertsql', 'read', 'write')
UPPER = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')


def good_name(name):
    parts = name.split('_')
    return all(parts) and not any(set(i) - UPPER for i in parts)


class Odbc(object):
    def __init__(self):
        self.functions = []     # [(lineno, name, [(key, value)])]
        self.msgs = []

    def state(self):
        return tuple((name, tuple(k for k, v in keys))
                     for _, name, keys in self.functions)

    def say(self, lineno, id_, *texts):
        self.msgs.append((lineno, id_, texts))

    def feed(self, lineno, el):
        if el[0] == 'ctx':
            if not good_name(el[1]):
                self.say(lineno, 'W_ODBC_BADTOKENS', el[1])
            self.functions.append((lineno, el[1], []))
        elif el[0] == 'bad':
            self.say(lineno, 'E_CONF_BAD_LINE')
        elif el[0] == 'var':
            if el[2]:
                self.say(lineno, 'H_CONF_HAS_ARROW')
            if not self.functions:
                return self.say(lineno, 'E_CONF_CTX_MISSING')
            self.key(lineno, el[1], el[3], self.functions[-1][2])

    def key(self, lineno, key, value, keys):
        if key not in KEYS:
            return self.say(lineno, 'E_CONF_KEY_INVALID', key)
        have = [i[0] for i in keys]
        if key in have:
            return self.say(lineno, 'E_CONF_KEY_DUPE', key)
        if have and KEYS.index(key) < KEYS.index(have[-1]):
            self.say(lineno, 'W_CONF_KEY_LATE', key)
        if key in ('read', 'write'):
            self.say(lineno, 'W_ODBC_LEGACY')
        if key in SQL and value[-1:] == ';':
            self.say(lineno, 'W_ODBC_TAILSEMI')
        keys.append((key, value))

    def defined(self):
        """Names of the functions; call this once, at the end."""
        ret = []
        for lineno, name, keys in self.functions:
            keys = dict(keys)
            if not set(keys) & {'read', 'write', 'readsql', 'writesql'}:
                self.say(lineno, 'E_ODBC_NOSQL')
            else:
                ret.append('%s_%s' % (keys.get('prefix') or 'ODBC', name))
        return ret


def run(data, st=None):
    machine = Odbc()
    for lineno, el, _ in read_elements(data)[0]:
        machine.feed(lineno, el)
        if st:
            st.step(machine.state())
    machine.names = machine.defined()
    return machine
