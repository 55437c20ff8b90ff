"""
Reference for a call of an application: what is read from the text of it,
and what is wrong with that.

Text is turned into a list of tokens: characters, and substitutions -- a
${variable}, ${FUNCTION()} or $[expression] -- that have no inside, as far
as the application is concerned.
"""
import json
import os

with open(os.path.join(os.path.dirname(__file__), 'tables.json')) as f:
    TABLES = json.load(f)

ARGUMENT_IDS = frozenset((
    'E_APP_ARG_FEW', 'E_APP_ARG_MANY', 'E_APP_ARG_BADOPT',
    'E_APP_ARG_DUPEOPT', 'E_APP_ARG_IFCONST', 'E_APP_ARG_IFEMPTY',
    'E_APP_ARG_IFSTYLE', 'E_APP_ARG_PIPEDELIM', 'E_APP_ARG_SYNTAX'))
BALANCE_IDS = frozenset(('W_APP_BALANCE', 'W_FUNC_BALANCE'))
VARIABLE_IDS = frozenset((
    'E_APP_PARSE_ERROR', 'E_VAR_BAD_TOKENS', 'E_VAR_SUBSTR_ARGS',
    'E_VAR_SUBSTR_START', 'E_VAR_SUBSTR_LENGTH'))
NAME_IDS = frozenset((
    'E_APP_MISSING', 'W_APP_BAD_CASE', 'W_APP_NEED_PARENS', 'E_APP_WSH',
    'W_APP_WSH'))
FUNCTION_IDS = frozenset((
    'E_FUNC_MISSING', 'E_FUNC_BAD_CASE', 'E_FUNC_PARENS', 'E_FUNC_TAIL',
    'W_FUNC_DYNAMIC', 'E_FUNC_BAD_ARGS', 'E_ASSIGN_EMPTY',
    'E_ASSIGN_NO_EQUALS', 'W_ASSIGN_SPACES'))
ALL_IDS = (ARGUMENT_IDS | BALANCE_IDS | VARIABLE_IDS | NAME_IDS |
           FUNCTION_IDS)

LEGAL = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
                  '0123456789_')
DIGITS = frozenset('0123456789')

# Min, max; arguments with options.
PLAIN = {
    'Goto': (1, 3, {}),
    'Gosub': (1, 3, {}),
    'VoiceMail': (1, 2, {2: 'bdgsuUP'}),
    'Milliwatt': (None, 1, {1: 'o'}),
    'Originate': (3, 6, {2: ('app', 'exten')}),
}
CONDITIONAL = ('GotoIf', 'GosubIf', 'ExecIf', 'GotoIfTime', 'ExecIfTime')
AUDIOHOOKS = ('MixMonitor', 'Chanspy', 'Volume', 'Speex', 'pitch_shift',
              'JACK_HOOK', 'Mute')
MAX_DEPTH = 100     # substitutions in substitutions


def option_letters(arg):
    """
    An option may have an argument: "(...)" directly after it. State:
    None, or where the argument started.
    """
    ret, start, n = [], None, 0
    while n < len(arg):
        if start is None:
            if arg[n] == '(' and n and not closed:
                start = n
            else:
                ret.append(arg[n])
            closed = False
        elif arg[n] == ')':
            start, closed = None, True
        n += 1
        if n == len(arg) and start is not None:
            # It is not closed: it is an option.
            ret.append('(')
            n, start, closed = start + 1, None, False
    return [i for i in ret if isinstance(i, str)]


class Unclosed(Exception):
    """... or too deep."""


class Sub(object):
    """
    A substitution. The value of it is unknown.
    """
    def __init__(self, text, kind, name=None, func=None, args=None,
                 start=None, length=None, inner=None):
        self.text, self.kind, self.name = text, kind, name
        self.inner = inner
        self.func, self.args = func, args
        self.start, self.length = start, length

    def __repr__(self):
        return '<%s>' % self.text


def text_of(tokens):
    return ''.join(i if isinstance(i, str) else i.text for i in tokens)


def quoted(tokens):
    """
    What is repeated in a message, if we can tell: a broken substitution
    may look different.
    """
    return [text_of(tokens)] if literal(tokens) else []


def literal(tokens):
    """Whether this is text only."""
    return all(isinstance(i, str) for i in tokens)


def split(tokens, delim, remove):
    """
    The standard argument parser.
    """
    args = [[]]
    depth = {'(': 0, '[': 0}
    quoted = escaped = False
    for tok in tokens:
        was_escaped, escaped = escaped, False
        keep = True
        if not isinstance(tok, str) or was_escaped:
            pass
        elif tok in '([':
            depth[tok] += 1
        elif tok in ')]':
            left = '([' [')]'.index(tok)]
            depth[left] = max(0, depth[left] - 1)
        elif tok == '"' and delim != '"':
            quoted = not quoted
            keep = not remove
        elif tok == '\\':
            escaped = True
            keep = not remove
        elif tok == delim and not quoted and not any(depth.values()):
            args.append([])
            continue
        if keep:
            args[-1].append(tok)
    return args


def split_first(tokens, delim):
    """[before, after], or None."""
    if delim not in tokens:
        return None
    n = tokens.index(delim)
    return tokens[:n], tokens[n + 1:]


def split_all(tokens, delim):
    ret = [[]]
    for tok in tokens:
        if tok == delim:
            ret.append([])
        else:
            ret[-1].append(tok)
    return ret


def balanced(tokens):
    """
    Nested like the brackets and quotes should be.
    """
    todo = []   # what should close
    for tok in tokens:
        if not isinstance(tok, str) or tok not in '"\'()[]{}':
            continue
        if todo and todo[-1] in ('"', "'"):
            if tok == todo[-1]:
                todo.pop()
        elif tok in '"\'':
            todo.append(tok)
        elif tok in '([{':
            todo.append(')]}'['([{'.index(tok)])
        elif not todo or todo.pop() != tok:
            return False
    return not todo


def strip(tokens):
    tokens = list(tokens)
    for end in (0, -1):
        while tokens and isinstance(tokens[end], str) and (
                tokens[end].isspace()):
            tokens.pop(end)
    return tokens


def number(text):
    digits = text[1:] if text[:1] == '-' else text
    return int(text[:30]) if digits and not set(digits) - DIGITS else None


class Model(object):
    """
    Reads application calls. Collects [(id, substrings of the message)],
    and what was used.
    """
    def __init__(self, version='v13', functions=()):
        tables = TABLES[version]
        self.apps = dict((name.lower(), (name, mod))
                         for mod, names in tables['apps'].items()
                         for name in names)
        self.funcs = dict((name.lower(), (name, mod))
                          for mod, names in tables['funcs'].items()
                          for name in names)
        for name, mod in functions:     # func_odbc
            self.funcs[name.lower()] = (name, mod)
        self.background = None
        self.msgs = []
        self.used_apps = set()
        self.used_funcs = set()
        self.variables = []

    def say(self, id_, *texts):
        self.msgs.append((id_, texts))

    # -- Substitutions

    def parse(self, text, depth=1):
        ret, i = [], 0
        while i < len(text):
            if text[i] == '$' and text[i + 1:i + 2] in ('{', '['):
                if depth > MAX_DEPTH:
                    raise Unclosed()
                end = self.find_end(text, i + 1)
                ret.append(self.substitution(
                    text[i + 1], text[i:end + 1],
                    self.parse(text[i + 2:end], depth + 1)))
                i = end + 1
            else:
                ret.append(text[i])
                i += 1
        return ret

    def find_end(self, text, pos):
        left = text[pos]
        right = '}' if left == '{' else ']'
        depth = 0
        while pos < len(text):
            if text[pos] == left:
                depth += 1
            elif text[pos] == right:
                depth -= 1
                if not depth:
                    return pos
            pos += 1
        raise Unclosed()

    def substitution(self, kind, text, inner):
        if kind == '[':
            return Sub(text, 'expr', inner=inner)
        if '(' in inner:
            return self.read_function(text, inner)
        start = length = None
        name, kind = inner, 'var'
        if ':' in inner:
            name, start, length = self.slice(inner)
        self.variable(name)
        return Sub(text, 'var', name=name, start=start, length=length)

    def variable(self, name):
        if literal(name):
            name = text_of(name)
            if set(name) - LEGAL:
                self.say('E_VAR_BAD_TOKENS', name)
            self.variables.append(name)

    def slice(self, inner):
        """
        name:start[:length]. Numbers, token lists or None.
        """
        parts = split_all(inner, ':')
        if len(parts) not in (2, 3):
            self.say('E_VAR_SUBSTR_ARGS', *quoted(inner))
            return parts[0], None, None
        start, length = parts[1], None
        if literal(start):
            start = number(text_of(start))
            if start is None:
                self.say('E_VAR_SUBSTR_START', text_of(parts[1]))
                return parts[0], None, None
        if len(parts) == 3:
            length = parts[2]
            if literal(length):
                length = number(text_of(length))
                if length is None:
                    self.say('E_VAR_SUBSTR_LENGTH', text_of(parts[2]))
                    return parts[0], None, None
                if length == 0 or (
                        isinstance(start, int) and start < 0 and
                        length >= -start):
                    # Nothing, or all of it.
                    self.say('E_VAR_SUBSTR_LENGTH', str(length))
                    length = None
        if start == 0 and isinstance(start, int) and length is None:
            self.say('E_VAR_SUBSTR_START', '0')
            start = None
        return parts[0], start, length

    def read_function(self, text, inner):
        func, rest = split_first(inner, '(')
        start = length = None
        if ')' in rest:
            n = len(rest) - 1 - rest[::-1].index(')')
            args, tail = rest[:n], rest[n + 1:]
            if tail:
                before, start, length = self.slice(tail)
                if before:
                    self.say('E_FUNC_TAIL', *quoted(inner))
                    start = length = None
        else:
            self.say('E_FUNC_PARENS', *quoted(inner))
            args = rest
        if literal(func):
            self.function(text_of(func), args)
        else:
            self.say('W_FUNC_DYNAMIC', *quoted(inner))
        return Sub(text, 'func', func=func, args=args, start=start,
                   length=length)

    def function(self, name, args):
        lower = name.lower()
        self.used_funcs.add(lower)
        proper = self.funcs.get(lower, (None, None))[0]
        if proper in (None, 'UNKNOWN'):
            self.say('E_FUNC_MISSING', name)
        elif proper != name:
            self.say('E_FUNC_BAD_CASE', name, proper)
        if proper == 'SET':
            self.assignment(args)
        elif proper == 'AUDIOHOOK_INHERIT' and literal(args):
            if text_of(args) not in AUDIOHOOKS:
                self.say('E_FUNC_BAD_ARGS', text_of(args))
        if not balanced(args):
            self.say('W_FUNC_BALANCE', *quoted(args))
        if proper in ('INC', 'DEC'):
            self.variable(args)

    def assignment(self, tokens):
        if not tokens:
            return self.say('E_ASSIGN_EMPTY')
        parts = split_first(tokens, '=')
        if not parts:
            return self.say('E_ASSIGN_NO_EQUALS', *quoted(tokens))
        dest = parts[0]
        if ' ' in dest:
            self.say('W_ASSIGN_SPACES', *quoted(dest))
        if dest and dest[-1] == ')':
            func, args = split_first(dest, '(') or (dest, None)
            args = [] if args is None else args[:-1]
            if literal(func):
                self.function(text_of(func), args)
            else:
                self.say('W_FUNC_DYNAMIC', *quoted(dest))

    # -- Applications

    def line(self, text):
        """An application, in the dialplan."""
        self.application(list(text))

    def application(self, tokens):
        parts = split_first(tokens, '(')
        name, data = parts or (tokens, [])
        if parts:
            if data and data[-1] == ')':
                data = data[:-1]
            else:
                data = ['('] + data
        if not literal(name):
            return
        name = text_of(name)
        if not parts and name.strip().lower() != 'noop':
            self.say('W_APP_NEED_PARENS', name)
        if name.rstrip() != name:
            return self.say('E_APP_WSH', name)
        if name.lstrip() != name:
            self.say('W_APP_WSH', name)
            name = name.lstrip()
        if not name:
            return self.say('E_APP_MISSING')

        lower = name.lower()
        self.used_apps.add(lower)
        proper = self.apps.get(lower, ('Unknown', None))[0]
        if proper == 'Background':
            if not self.background and name in ('Background', 'BackGround'):
                self.background = name
            proper = self.background or proper
        if name == proper:
            pass
        elif proper == 'Unknown':
            self.say('E_APP_MISSING', name)
        else:
            self.say('W_APP_BAD_CASE', name, proper)

        if literal(data):
            try:
                data = self.parse(text_of(data))
            except Unclosed:
                self.say('E_APP_PARSE_ERROR', name, text_of(data))
        self.call(proper, data)

    def call(self, app, data):
        if app in PLAIN:
            return self.plain(app, data)
        if app in CONDITIONAL:
            return self.conditional(app, data)
        if app == 'Set':
            self.assignment(data)
        if not balanced(data):
            self.say('W_APP_BALANCE', *quoted(data))

    def plain(self, app, data):
        low, high, options = PLAIN[app]
        args = split(data, ',', False)
        if low and (len(args) < low or (low == 1 and args == [[]])):
            self.say('E_APP_ARG_FEW', app, str(low))
        elif len(args) > high:
            self.say('E_APP_ARG_MANY', app, str(high))
        for n, opts in options.items():
            if len(args) < n:
                continue
            arg = args[n - 1]
            if isinstance(opts, tuple):
                if literal(arg) and text_of(arg) not in opts:
                    self.say('E_APP_ARG_BADOPT', app, text_of(arg))
            else:
                letters = option_letters(arg)
                bad = [i for i in letters if i not in opts]
                if bad:
                    self.say('E_APP_ARG_BADOPT', app, text_of(bad))
                if len(set(letters)) < len(letters):
                    self.say('E_APP_ARG_DUPEOPT', app)
        if len(args) == 1 and '|' in args[0]:
            self.say('E_APP_ARG_PIPEDELIM', app)
        if app == 'Gosub':
            self.routine(args)

    def routine(self, args):
        # [[context,]exten,]prio(args)
        prio = []
        for n, arg in enumerate(args[min(len(args) - 1, 2):]):
            prio += ([','] if n else []) + arg
        if '(' in prio and prio[-1] != ')':
            self.say('W_APP_BALANCE', *quoted(prio))

    def conditional(self, app, data):
        parts = split(data, '?', True)
        if len(parts) == 1:
            parts = split(data, ',', False)
            if len(parts) > 1:
                self.say('E_APP_ARG_IFSTYLE', app)
            else:
                self.say('E_APP_ARG_FEW', app, '2')
            cond, actions = parts[0], []
        else:
            if len(parts) > 2:
                self.say('E_APP_ARG_MANY', app, '2')
            cond, actions = parts[0], split(parts[1], ':', False)[:2]
        cond = strip(cond)
        if not cond:
            self.say('E_APP_ARG_IFEMPTY', app)
        elif not app.endswith('Time'):
            if any(isinstance(i, str) for i in cond):
                self.say('E_APP_ARG_IFCONST', app)
        for action in actions:
            if not action:
                continue
            if app == 'ExecIf':
                self.application(action)
            elif app in ('GotoIf', 'GosubIf'):
                args = split(action, ',', True)
                if len(args) > 3:
                    self.say('E_APP_ARG_MANY', app, '3')
                if app == 'GosubIf':
                    self.routine(args)


def differences(want, got):
    """
    Compare [(lineno, id, texts)] to [(lineno, id, message)]. Returns None,
    or (wanted, found) for the first line that is wrong.
    """
    if [i[0:2] for i in want] == [i[0:2] for i in got] and all(
            mentions(g[2], w[2]) for w, g in zip(want, got)):
        return None
    for lineno in sorted(set(i[0] for i in want) | set(i[0] for i in got)):
        w = [i[1:] for i in want if i[0] == lineno]
        g = [i[1:] for i in got if i[0] == lineno]
        if not same(w, g):
            return lineno, w, g
    return None


def mentions(message, texts):
    """
    Whether the message names these things (quoted).
    """
    return all(repr(t) in message or "'%s'" % t in message or
               (t.isdigit() and t in message) for t in texts)


def same(want, got):
    want = sorted(want, key=repr)
    left = list(got)
    if len(want) != len(left):
        return False
    # The ones with more text first.
    for id_, texts in sorted(want, key=(lambda i: -sum(map(len, i[1])))):
        for n, (id2, message) in enumerate(left):
            if id2 == id_ and mentions(message, texts):
                left.pop(n)
                break
        else:
            return False
    return True
