"""
P01: line reader. A byte-level line machine against FileReader.
"""
import itertools

from mc import impl
from mc.core import BLOCK, BLOCKS, FnSpace, Violation, sequences
from mc.ref.reader import LineMachine, comment_split

ASSUMPTIONS = [
    'byte values outside the enumerated alphabets behave like those of '
    'their class (all 256 values are enumerated in pairs)',
    'files are read to the end by the caller, as all commands do',
]


def read(data):
    impl.reset()
    reader = impl.load(impl.FileReader, {'a.conf': data})
    got = []
    for where, text, comment in reader:
        got.append((where.filename, where.lineno, where.line, text, comment))
    return got


def expect(chunks, st):
    state, out = LineMachine.INIT, []
    for c in chunks:
        state = LineMachine.step(state, c, out)
        if st is not None:
            st.step((state[0], min(state[1], 3), state[2], state[3],
                     tuple(out[-1][3]) if out else ()))
    LineMachine.finish(state, out)
    items, msgs = [], []
    for lineno, raw, text, ids in out:
        data, comment, cids = comment_split(text)
        items.append(('a.conf', lineno, raw, data, comment))
        msgs.extend((lineno, i) for i in ids + cids)
    msgs.sort()
    return items, msgs


def check_chunks(chunks, st):
    items, msgs = expect(chunks, st)
    got = read(b''.join(chunks))
    if got != items:
        raise Violation('items of the file differ', items, got)
    gotmsgs = impl.line_ids()
    if gotmsgs != msgs:
        raise Violation('line diagnostics differ', msgs, gotmsgs)
    st.outcome(tuple(msgs), bool(msgs))


def check_pairs(first, st):
    """One file per first byte and per context; one line per second."""
    ctx, b1 = first
    head, tail = ctx
    chunks = []
    for b2 in range(256):
        if b2 != 10:
            chunks.append(head + bytes([b1, b2]) + tail)
    check_chunks(chunks, st)


def check_characters(item, st):
    """One line per character."""
    (head, tail), first = item
    check_chunks([
        head + chr(i).encode('utf-8', 'surrogatepass') + tail
        for i in range(first, first + BLOCK) if i != 10], st)


def check_includes(item, st):
    """
    Line ending state is kept per file: main file with includes.
    """
    main, incs = item
    files = {'a.conf': b''.join(main)}
    for n, inc in enumerate(incs):
        files['inc%d.conf' % n] = b''.join(inc)
    impl.reset()
    got = []
    reader = impl.load(impl.FileConfigParser, files)
    for x in reader:
        pass
    msgs = []
    included = set()
    for fn, data in files.items():
        out = LineMachine.finish(
            LineMachine.step(LineMachine.INIT, data, []), []) if 0 else None
        out = []
        LineMachine.finish(
            LineMachine.step(LineMachine.INIT, data, out), out)
        for lineno, raw, text, ids in out:
            st.step((fn, raw, tuple(ids)))
            msgs.extend((fn, lineno, i) for i in ids)
    del included
    msgs.sort()
    got = [i for i in impl.messages() if '_FILE_' in i[2]]
    if got != msgs:
        raise Violation('line ending diagnostics differ', msgs, got)
    st.outcome(tuple(msgs), bool(msgs))


def include_items():
    eols = (b'\n', b'\r\n')
    last = (b'\n', b'\r\n', b'')
    bodies = [()]
    bodies += [(b';1' + e,) for e in last]
    bodies += [(b';1' + e, b';2' + f) for e in eols for f in last]
    # main: [line] include [line] [include] [line]
    for pre in ((), (b';p\n',), (b';p\r\n',)):
        for e1 in last:
            inc = b'#include inc0.conf' + e1
            if e1 == b'':
                for b0 in bodies:
                    yield pre + (inc,), (b0,)
                continue
            for post in [()] + [(b';q' + e,) for e in last]:
                for b0 in bodies:
                    yield pre + (inc,) + post, (b0,)
            for e2 in last:
                inc2 = b'#include inc1.conf' + e2
                for b0 in bodies:
                    for b1 in bodies:
                        yield pre + (inc, inc2), (b0, b1)
            # Nested: inc0 includes inc1.
            for b1 in bodies:
                for x in eols:
                    nested = (b';n' + x, b'#include inc1.conf' + x)
                    yield pre + (inc,), (nested, b1)
                    yield pre + (inc, b';z\n'), (nested, b1)
                    yield pre + (inc, b';z\r\n'), (
                        nested + (b';m' + x,), b1)


def spaces(tier):
    quick = tier == 'quick'
    struct = (b'a', b'\n', b'\r', b'\x01', b'\xe9', b'\xc3\xa9')
    enc = (b'a', b'\n', b'\xe2', b'\x82', b'\xac', b'\xc3', b'\xa9',
           b'\xf0', b'\x90', b'\xed', b'\x81')
    lines = tuple(a + b for a in (b'', b'a', b'\xe9', b'\x00', b'\r',
                                  b'\xef\xbb\xbf')
                  for b in (b'\n', b'\r\n')) + (b'a', b'\t', b'\r')
    d1, d2, d3 = (7, 5, 4) if quick else (9, 6, 5)
    ctxs = [(b'x', b'y\n'), (b'', b'\r\n'), (b'\xc3\xa9', b'\n'),
            (b'x', b'\n')]
    def long_items():
        # Long lines, and many lines.
        for a in lines + struct:
            for b in (b'',) + lines:
                for n in (9, 64, 127, 256, 1023):
                    for c in (b'', b'\n', b'\r\n', b'a\r\n', b'a'):
                        yield (a,) * n + (b, c)

    return [
        FnSpace('long', 'up to 1023 times the same symbol, and then two more',
                long_items, check_chunks),
        FnSpace('bytes', 'all byte strings of up to %d symbols over %r' % (
            d1, struct), lambda: sequences(struct, d1), check_chunks),
        FnSpace('encoding', 'all byte strings of up to %d symbols over %r' % (
            d2, enc), lambda: sequences(enc, d2), check_chunks),
        FnSpace('lines', 'all files of up to %d lines over %r' % (d3, lines),
                lambda: sequences(lines, d3), check_chunks),
        FnSpace('pairs', 'all pairs of byte values in %d line contexts'
                % len(ctxs),
                lambda: itertools.product(ctxs, range(256)), check_pairs,
                show=lambda i: repr(i)),
        FnSpace('characters', 'every code point (surrogates as well) in %d '
                'line contexts' % len(ctxs),
                lambda: itertools.product(ctxs, BLOCKS),
                check_characters, show=lambda i: repr(i)),
        FnSpace('includes', 'line endings of a file and its (nested) '
                'includes, every combination of LF, CRLF and none',
                include_items, check_includes),
    ]
