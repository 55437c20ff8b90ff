"""
The exploration engine.

A check is a list of Space objects. A space enumerates *all* behaviours
(input sequences, operation histories, fault positions) of a bounded
alphabet, and judges each of them by running the real code in /repo and
comparing it with a reference model. The engine deals the behaviours out
to forked workers, collects what was covered, confirms each violation in
a fresh process, and writes the evidence.
"""
import gc
import itertools
import json
import mmap
import os
import pickle
import re
import resource
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ALINT_MC_REPO', '/repo')
NPROC = int(os.environ.get('ALINT_MC_JOBS') or os.cpu_count() or 4)
HANG = 60     # seconds for a single behaviour
MAX_VIOLATIONS = 3  # per worker and space
MASK = (1 << 61) - 1


class Violation(Exception):
    def __init__(self, what, expected=None, got=None, key=None):
        super().__init__(what)
        self.what = what
        self.expected = expected
        self.got = got
        self.key = key or what


class Hang(BaseException):
    pass


class Stats(object):
    """
    What one worker saw. ``states`` and ``outcomes`` hold hashes.
    """
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.item = None
        self.count = 0
        self.slowest = 0.0

    def step(self, state):
        """The model made a transition to this (hashable) state."""
        self.transitions += 1
        self.states.add(hash(state) & MASK)

    def outcome(self, outcome, nontrivial):
        """The implementation agreed with the model on this behaviour."""
        self.traces += 1
        self.outcomes.add(hash(outcome) & MASK)
        if nontrivial:
            self.nontrivial += 1


class Space(object):
    name = None
    bound = None        # text: alphabet and bound
    nproc = None        # limit the number of workers
    hang = HANG

    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)

    def items(self):
        raise NotImplementedError

    def check(self, item, st):
        raise NotImplementedError

    def setup_worker(self):
        pass

    def teardown_worker(self):
        pass

    def show(self, item):
        """Something JSON-able for the evidence."""
        return repr(item)


class FnSpace(Space):
    """FnSpace(name, bound, items=callable, fn=callable(item, st))"""
    def __init__(self, name, bound, items, fn, **kwargs):
        super().__init__(name=name, bound=bound, **kwargs)
        self._items, self._fn = items, fn

    def items(self):
        return self._items()

    def check(self, item, st):
        return self._fn(item, st)


BLOCK = 512
BLOCKS = range(0, 0x110000, BLOCK)
# All of the BMP, and some others (mathematical, emoji, tags, last).
BMP_BLOCKS = tuple(range(0, 0x10000, BLOCK)) + (
    0x1d400, 0x1f600, 0xe0000, 0x10fe00)


def block(first, skip='\n\r'):
    """
    The characters (but surrogates) of one of the BLOCKS.
    """
    return [chr(i) for i in range(first, first + BLOCK)
            if not 0xd800 <= i <= 0xdfff and chr(i) not in skip]


# What a single edit puts in: blanks, punctuation, letters and digits that
# have a meaning somewhere, and characters that look like one of those.
NEAR = (' \t!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~' 'aAbfFnNsSxXzZ' '01239'
        '\x00\x0b\x7f\x85\xa0\xb2\xdf\xe9\u0130\u0131\u0661\u2028'
        '\u20ac\u3000\ufeff')


def near(text, alphabet=NEAR):
    """
    All texts at one edit of it: a character put in, replaced, removed,
    doubled, in the other case, or swapped with the next, and a word in
    another case.
    """
    seen = {text}

    def new(other):
        if other not in seen:
            seen.add(other)
            return True

    def all_of_them():
        for i in range(len(text) + 1):
            head, char, tail = text[:i], text[i:i + 1], text[i + 1:]
            for c in alphabet:
                yield head + c + char + tail
            if char:
                yield head + tail
                yield head + char + char + tail
                yield head + char.swapcase() + tail
                yield head + tail[:1] + char + tail[1:]
                for c in alphabet:
                    yield head + c + tail
        for m in re.finditer(r'[A-Za-z]+', text):
            word = m.group()
            for other in (word.upper(), word.lower(), word.swapcase(),
                          word.capitalize()):
                yield text[:m.start()] + other + text[m.end():]
    return filter(new, all_of_them())


def near_documents(lines, alphabet=NEAR):
    """
    All documents (sequences of lines) at one edit of it: one line edited,
    dropped, doubled, moved or split, or two of them joined.
    """
    lines = tuple(lines)
    for i, line in enumerate(lines):
        head, tail = lines[:i], lines[i + 1:]
        yield head + tail
        yield head + (line,) + lines[i:]
        for j in range(len(tail) + 1):
            yield head + tail[:j] + (line,) + tail[j:]
        for j in range(len(line)):
            yield head + (line[:j], line[j:]) + tail
        if tail:
            yield head + (line + tail[0],) + tail[1:]
        for other in near(line, alphabet):
            yield head + (other,) + tail


def sequences(alphabet, depth, mindepth=0):
    """All sequences over the alphabet, shortest first."""
    for n in range(mindepth, depth + 1):
        for seq in itertools.product(alphabet, repeat=n):
            yield seq


def bfs_traces(init, alphabet, step, depth, cap=None, canon=lambda s: s):
    """
    Breadth first search over the *model*: return one trace (sequence of
    symbols) for every transition of the reachable state graph up to the
    given depth, and whether that was complete. The traces are what gets
    replayed against the implementation.
    """
    seen = {canon(init)}
    frontier = [(init, ())]
    traces = []
    complete = True
    for _ in range(depth):
        new = []
        for state, hist in frontier:
            for sym in alphabet:
                nxt = step(state, sym)
                if nxt is None:
                    continue
                trace = hist + (sym,)
                traces.append(trace)
                key = canon(nxt)
                if key not in seen:
                    seen.add(key)
                    new.append((nxt, trace))
                if cap and len(traces) >= cap:
                    return traces, len(seen), False
        frontier = new
        if not frontier:
            break
    return traces, len(seen), complete


def limit_memory(gb=3):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


TICKS = 4     # looks at the clock per hang time


class Worker(object):
    def __init__(self, space, part, nparts, counter):
        self.space, self.part, self.nparts = space, part, nparts
        self.counter = counter  # shared memory
        self.st = Stats()
        self._tick = None
        self._ticks = 0

    def on_alarm(self, *args):
        now = self.st.count
        if self._tick != now or not self.busy:
            self._tick, self._ticks = now, 0
        self._ticks += 1
        if self._ticks >= TICKS:
            self._ticks = 0
            raise Hang()

    def run(self):
        st, space = self.st, self.space
        part, nparts = self.part, self.nparts
        counter = self.counter
        pack = struct.pack_into
        limit_memory()
        sys.setrecursionlimit(2000)
        self.busy = False
        signal.signal(signal.SIGALRM, self.on_alarm)
        signal.setitimer(signal.ITIMER_REAL, float(space.hang) / TICKS,
                         float(space.hang) / TICKS)
        space.setup_worker()
        i = -1
        for i, item in enumerate(space.items()):
            if i % nparts != part:
                continue
            st.count += 1
            st.item = item
            pack('q', counter, part * 8, i)
            began = time.time()
            try:
                self.busy = True
                space.check(item, st)
                self.busy = False
            except Violation as v:
                self.violation(item, v.what, v.expected, v.got, v.key)
            except Hang:
                self.violation(item, 'does not terminate within {} seconds'
                               .format(space.hang), None, None, 'hang')
            except MemoryError:
                self.violation(item, 'runs out of memory', None, None,
                               'memory')
            except Exception as e:
                self.violation(
                    item, 'exception {!r}'.format(e), None,
                    traceback.format_exc()[-2000:], 'exception')
            self.busy = False
            st.slowest = max(st.slowest, time.time() - began)
            if st.violations and st.violations[-1]['key'] == 'hang':
                break
            if st.count in (3, 47, 1009) and part == 0:
                st.samples.append(space.show(item))
            if len(st.violations) >= MAX_VIOLATIONS:
                break
        signal.setitimer(signal.ITIMER_REAL, 0)
        gc.collect()
        try:
            space.teardown_worker()
        except OSError:
            if not st.violations:
                raise
        if part == 0 and st.item is not None:
            st.samples.append(space.show(st.item))
        return st

    def violation(self, item, what, expected, got, key):
        self.busy = False
        self.st.violations.append(dict(
            space=self.space.name, item=item, what=what,
            expected=expected, got=got, key=key))


def run_space(space, log=sys.stderr):
    """
    Run all behaviours of a space in forked workers; return merged Stats.
    """
    n = min(NPROC, space.nproc or NPROC)
    counter = mmap.mmap(-1, 8 * n)
    for p in range(n):
        struct.pack_into('q', counter, p * 8, -1)
    pipes = []
    sys.stdout.flush()
    sys.stderr.flush()
    for part in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, r2, _ in pipes:
                    os.close(r2)
                try:
                    st = Worker(space, part, n, counter).run()
                    st.item = None
                    data = pickle.dumps(('ok', st), 4)
                except BaseException:
                    data = pickle.dumps(('error', traceback.format_exc()), 4)
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                code = 9
            finally:
                os._exit(code)
        os.close(w)
        pipes.append((pid, r, part))
    total = Stats()
    errors = []
    for pid, r, part in pipes:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        try:
            kind, st = pickle.loads(data)
        except Exception:
            # The worker was killed: an abort of the interpreter, or out
            # of memory. The item at hand did that.
            idx = struct.unpack_from('q', counter, part * 8)[0]
            item = None
            for i, item in enumerate(space.items()):
                if i == idx:
                    break
            total.violations.append(dict(
                space=space.name, item=item,
                what='the process dies (status {})'.format(status),
                expected=None, got=None, key='dies'))
            continue
        if kind == 'error':
            errors.append(st)
            continue
        total.states |= st.states
        total.outcomes |= st.outcomes
        total.transitions += st.transitions
        total.traces += st.traces
        total.nontrivial += st.nontrivial
        total.count += st.count
        total.slowest = max(total.slowest, st.slowest)
        total.samples.extend(st.samples)
        total.violations.extend(st.violations)
    if errors:
        raise RuntimeError('harness error:\n' + errors[0])
    return total


def known_findings():
    ret = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property='):
                    prop, _, rest = line[len('known: property='):].partition(
                        ' ')
                    key, _, what = rest.partition(' :: ')
                    ret.append((prop, key.strip(), what.strip()))
    except IOError:
        pass
    return ret


def item_to_json(item):
    if isinstance(item, bytes):
        return {'__bytes__': item.decode('latin1')}
    if isinstance(item, tuple):
        return {'__tuple__': [item_to_json(i) for i in item]}
    if isinstance(item, frozenset):
        return {'__frozenset__': sorted(
            (item_to_json(i) for i in item), key=repr)}
    if isinstance(item, list):
        return [item_to_json(i) for i in item]
    if isinstance(item, dict):
        return {'__dict__': [[item_to_json(k), item_to_json(v)]
                             for k, v in item.items()]}
    return item


def item_from_json(item):
    if isinstance(item, dict):
        if '__bytes__' in item:
            return item['__bytes__'].encode('latin1')
        if '__tuple__' in item:
            return tuple(item_from_json(i) for i in item['__tuple__'])
        if '__frozenset__' in item:
            return frozenset(
                item_from_json(i) for i in item['__frozenset__'])
        if '__dict__' in item:
            return dict((item_from_json(k), item_from_json(v))
                        for k, v in item['__dict__'])
    if isinstance(item, list):
        return [item_from_json(i) for i in item]
    return item


def run_check(prop, tier, module):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    replays = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(replays, exist_ok=True)
    for fn in os.listdir(replays):
        if fn.startswith(prop + '-'):
            os.unlink(os.path.join(replays, fn))

    spaces = module.spaces(tier)
    known = [(k, w) for p, k, w in known_findings() if p == prop]
    merged = Stats()
    per_space = []
    violations = []
    seen_known = {}
    for space in spaces:
        t1 = time.time()
        st = run_space(space)
        per_space.append({
            'space': space.name, 'bound': space.bound,
            'behaviours': st.count, 'states': len(st.states),
            'transitions': st.transitions, 'traces': st.traces,
            'distinct_outcomes': len(st.outcomes),
            'with_findings': st.nontrivial,
            'slowest_s': round(st.slowest, 2),
            'wall_s': round(time.time() - t1, 2)})
        print('{prop} {space}: behaviours={behaviours} states={states} '
              'transitions={transitions} traces={traces} outcomes='
              '{distinct_outcomes} slowest={slowest_s}s '
              'wall={wall_s}s'.format(
                  prop=prop, **per_space[-1]))
        sys.stdout.flush()
        # The same state of two models is not the same state.
        merged.states.update(hash((space.name, i)) for i in st.states)
        merged.outcomes.update(hash((space.name, i)) for i in st.outcomes)
        merged.transitions += st.transitions
        merged.traces += st.traces
        merged.nontrivial += st.nontrivial
        merged.count += st.count
        merged.samples.extend(
            {'space': space.name, 'behaviour': s} for s in st.samples[:2])
        for v in st.violations:
            for key, what in known:
                if key and key in v['key']:
                    seen_known[key] = what
                    break
            else:
                violations.append(v)
        if len(violations) > 5 or any(v['key'] == 'hang' for v in violations):
            break

    reported = []
    for n, v in enumerate(violations[:5]):
        path = os.path.join(replays, '{}-{}.json'.format(prop, n + 1))
        with open(path, 'w') as f:
            json.dump(dict(
                property=prop, tier=tier, space=v['space'],
                item=item_to_json(v['item']), what=v['what'],
                expected=repr(v['expected']), got=repr(v['got']),
                how='run: /verif/replay.sh ' + path), f, indent=1)
            f.write('\n')
        reported.append((path, v))

    level = getattr(module, 'LEVEL', 'model_checking')
    coverage = {
        'samples': merged.samples[:12],
        'exhaustive': True,
        'distinct_outcomes': len(merged.outcomes),
        'behaviours_with_findings': merged.nontrivial,
        'spaces': per_space,
    }
    if level == 'model_checking':
        coverage.update(
            states=len(merged.states), transitions=merged.transitions,
            traces_validated_against_impl=merged.traces)
    else:
        coverage.update(
            evaluations=merged.count,
            distinct_nontrivial=len(merged.states),
            rule=module.RULE,
            states=len(merged.states), transitions=merged.transitions)
    if violations:
        coverage['exhaustive'] = False  # we stop early
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.rename(path + '.tmp', path)

    for key, what in seen_known.items():
        print('KNOWN-FINDING: property={} {}'.format(prop, what))
    for path, v in reported:
        print('  {}: {}\n    item: {}\n    expected: {}\n    got:      {}'
              .format(v['space'], v['what'], repr(v['item'])[:500],
                      repr(v['expected'])[:2000], repr(v['got'])[:2000]))
        print('VIOLATION property={} replay={}'.format(prop, path))
    if reported:
        return 1
    print('OK property={} tier={} behaviours={} states={} transitions={} '
          'traces={} wall={}s'.format(
              prop, tier, merged.count, len(merged.states),
              merged.transitions, merged.traces, evidence['wall_s']))
    return 0
