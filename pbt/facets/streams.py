"""C30 failing streams; C06 over other kinds of streams."""
import io
import os
import tempfile

from hypothesis import strategies as st

from pbt import findings, gen
from pbt.core import CheckFailure, facet
from pbt.facets.io_stream import CURVE, encode, expected, item, read, write
from pbt.facets.io_var import CLS

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter


class Fault(Exception):
    """an error of a stream of another library"""


class Interrupt(BaseException):
    """the user or the system stops the program (like KeyboardInterrupt, or a timer's signal)"""


FAULTS = [Fault('no more'), OSError(28, 'No space left on device'), ConnectionResetError(104, 'Connection reset by peer'), EOFError('end'), ValueError('I/O operation on closed file'), InterruptedError(4, 'Interrupted'), TimeoutError('timed out'),
          BlockingIOError(11, 'try again', 0), Interrupt('stop')]


class FaultyOut(io.BytesIO):
    """the n-th write fails, after accepting part of the data; later ones work again (unless it is broken for good)"""

    def __init__(self, at, part, forever, kind):
        super().__init__()
        self.fault = FAULTS[kind]
        self.left, self.part, self.forever = at, part, forever
        self.failed = False

    def write(self, b):
        if self.left == 0 or self.failed and self.forever:
            self.left = -1
            self.failed = True
            b = bytes(b)
            super().write(b[:len(b) * self.part // 4])
            raise self.fault
        self.left -= 1
        return super().write(b)


class FaultyIn(io.BytesIO):
    """the n-th read fails; nothing is consumed"""

    def __init__(self, data, kind):
        super().__init__(data)
        self.fault = FAULTS[kind]
        self.left = -1
        self.asked = 0
        self.struck = False

    def read(self, *n):
        self.asked += 1
        if self.left == 0:
            self.left = -1
            self.struck = True
            raise self.fault
        self.left -= 1
        return super().read(*n)


def fault(fn):
    try:
        fn()
    except CheckFailure:
        raise
    except (Exception, Interrupt) as e:
        return e
    return None


@facet('C30', lambda: st.tuples(st.lists(item().filter(lambda it: it[0] != 'Refused'), min_size=1, max_size=8), gen.integers(0, 30), gen.integers(0, 4), st.booleans(), gen.integers(0, len(FAULTS) - 1)), 3500, 'the fault strikes a write', shards=8)
def failing_writes(c, case):
    """the error reaches the caller of the write it strikes; what is in the stream is what was written, then a prefix of the struck item; later items are written as usual"""
    items, at, part, forever, kind = case
    s = FaultyOut(at, part, forever, kind)
    w = BinaryWriter(s)
    log = b''
    for n, it in enumerate(items):
        was = s.failed
        e = fault(lambda: write(w, it))
        enc = encode(it)
        if s.failed and not was:
            c.true(e is not None, 'writing %r (%d) reports success although the stream failed' % (it, n))
            got = s.getvalue()
            c.true(got.startswith(log) and (log + enc).startswith(got), 'after a failed write of %r the stream is ..%s, expected ..%s and a part of %s' % (it, got[-60:].hex(), log[-30:].hex(), enc[:60].hex()))
            c.nontrivial()
            c.label(it[0])
            if not forever:
                log = got
        elif was and forever:
            if enc:
                c.true(e is not None, 'writing %r reports success although the stream is broken' % (it,))
        else:
            c.true(e is None, 'writing %r fails with %r although the stream works' % (it, e))
            log += enc
            c.true(s.getvalue() == log, 'after writing %r the stream is ..%s, expected ..%s' % (it, s.getvalue()[-60:].hex(), log[-60:].hex()))


# these begin with ReadByte, which documents that it gives 0 for any failure, or catch failures of their items
BYTE_FIRST = ('VarInt', 'VarBytes', 'VarString', 'Hashes', 'Array', 'Point', 'Infinity', 'Byte')


def second_read(r, it):
    """another way to read the same"""
    if it[0] in ('UInt160', 'UInt256'):
        u = CLS[len(it[1])](data=bytes([i & 0x7f for i in range(len(it[1]))]))
        u.Deserialize(r)
        return bytes(u.ToArray())
    if it[0] in ('Raw', 'FixedString'):
        n = len(expected(it))
        b = r.SafeReadBytes(n)
        return b if it[0] == 'Raw' or not r.ReadBytes(it[2]).strip(b'\0') else None
    if it[0] in ('Point', 'Infinity'):
        p = CURVE.decode_from_reader(r)
        return 'inf' if p.IsInfinity else (p.x.value, p.y.value)
    if it[0] in ('VarInt', 'VarBytes', 'VarString'):
        return getattr(r, 'Read' + it[0])(2 ** 63)
    return read(r, it)


@facet('C30', lambda: st.tuples(st.lists(item().filter(lambda it: it[0] != 'Refused'), min_size=1, max_size=8), gen.integers(0, 7), gen.integers(0, 5), gen.integers(0, len(FAULTS) - 1)), 3500, 'the fault strikes a read', shards=8)
def failing_reads(c, case):
    """the error reaches the caller of the read it strikes; read again from its start, the item and all later ones are what was written"""
    items, n, at, kind = case
    n %= len(items)
    data = b''.join(encode(it) for it in items)
    s = FaultyIn(data, kind)
    r = BinaryReader(s)
    pos = 0
    for i, it in enumerate(items):
        if i == n:
            for way in (read, second_read):
                s.seek(pos)
                s.asked, s.left, s.struck = 0, -1, False
                c.eq(way(r, it), expected(it), 'read of %r' % (it,))
                asked = s.asked
                first = 1 if it[0] in BYTE_FIRST else 0
                if asked > first and it[0] != 'Array':
                    s.seek(pos)
                    s.left = first + at % (asked - first)
                    got = []
                    e = fault(lambda: got.append(way(r, it)))
                    if s.struck:
                        c.true(e is not None, 'read of %r gives %r although the stream failed' % (it, got))
                        c.nontrivial()
                        c.label(it[0])
                    s.left = -1
            s.seek(pos)
        c.eq(read(r, it), expected(it), 'read of %r' % (it,))
        pos += len(encode(it))
        c.eq(s.tell(), pos, 'position after reading %r' % (it,))


@facet('C30', lambda: st.tuples(st.lists(gen.fixed(32), min_size=1, max_size=6), st.sampled_from(['few', 'few', 'few', 'read', 'all']), gen.integers(0, 5), gen.integers(0, 1999), gen.integers(0, 4), gen.integers(0, len(FAULTS) - 1)), 400, 'the fault strikes the list', shards=4)
def failing_header_list(c, case):
    """the list of header hashes on a failing stream"""
    base, how, pre, at, part, kind = case
    if how == 'read':
        r = FaultyIn(b'x' * pre + (b''.join(h.hex().encode() for h in base) * 2000)[:128000], kind)
        r.read(pre)
        r.left = r.asked = 0
        r.left = at
        got = []
        e = fault(lambda: got.append(BinaryReader(r).Read2000256List()))
        if r.struck:
            c.true(e is not None, 'Read2000256List gives a list although the stream failed')
            c.nontrivial()
        return
    hs = base if how == 'few' else (base * 2000)[:2000]
    s = FaultyOut(at % (len(hs) if how == 'few' else 2000), part, True, kind)
    e = fault(lambda: BinaryWriter(s).Write2000256List([h.hex() for h in hs]))
    raw = b''.join(h[::-1] for h in hs)
    if s.failed:
        c.true(e is not None, 'Write2000256List reports success although the stream failed')
        c.nontrivial()
    else:
        c.true(e is None, 'Write2000256List fails with %r' % (e,))
    got = s.getvalue()
    c.true(raw.startswith(got) and (s.failed or got == raw), 'Write2000256List left %d bytes that are no part of the list' % len(got))


@facet('C30', lambda: st.tuples(st.sampled_from([20, 32]).flatmap(lambda n: st.lists(gen.fixed(n), min_size=2, max_size=4)), st.lists(st.tuples(st.sampled_from(['in', 'short', 'out', 'both']), gen.integers(0, 31)), min_size=1, max_size=5), gen.integers(0, len(FAULTS) - 1)), 800, 'every case')
def failing_values(c, case):
    """one 160/256-bit value that is read and written on streams that fail, and again when they work"""
    datas, steps, kind = case
    datas = [bytes([b[0] | 0x80]) + b[1:] if findings.hex_looking(b) else b for b in datas]   # KF1 is not this check's
    n = len(datas[0])
    v = CLS[n](data=datas[0])
    now = datas[0]
    for i, (what, part) in enumerate(steps):
        new = datas[(i + 1) % len(datas)]
        if what != 'out':
            s = FaultyIn(new if what != 'short' else new[:part % n], kind)
            s.left = 0 if what != 'short' else -1
            c.true(fault(lambda: v.Deserialize(BinaryReader(s))) is not None, 'Deserialize from a %s stream reports success' % ('truncated' if what == 'short' else 'failing'))
            c.eq((bytes(v.ToArray()), v.Size, v.ToString()), (now, n, now[::-1].hex()), 'value after a failed read')
            if part % 2:
                v.Deserialize(BinaryReader(io.BytesIO(new)))
                now = new
                c.eq((bytes(v.ToArray()), v.Size, v.ToString()), (now, n, now[::-1].hex()), 'value read after a failed read')
                c.true(hash(v) == hash(CLS[n](data=now)) and v == CLS[n](data=now), 'value read after a failed read is not equal')
        if what in ('out', 'both'):
            s = FaultyOut(0, part % 5, False, kind)
            w = BinaryWriter(s)
            c.true(fault(lambda: v.Serialize(w)) is not None, 'Serialize to a failing stream reports success')
            got = s.getvalue()
            c.true(now.startswith(got), 'a failing write of %s left %s' % (now.hex(), got.hex()))
            v.Serialize(w)
            c.eq(s.getvalue(), got + now, 'value written after a failed write')
    c.nontrivial()


class Sub(io.BytesIO):
    """a stream with state of its own"""

    def __init__(self, *a):
        super().__init__(*a)
        self.name = 'sub'

    def __len__(self):
        return 0

    def __bool__(self):
        return False


KINDS = ['subclass', 'file', 'raw file', 'random access', 'pipe']


@facet('C06', lambda: st.tuples(st.lists(item(), min_size=1, max_size=10), st.sampled_from(KINDS), st.sampled_from([1, 7, 16, 8192])), 900, 'at least three items', shards=4, fuzz=False)
def stream_kinds(c, case):
    """files, pipes and other binary streams"""
    items, kind, size = case
    data = b''.join(encode(it) for it in items)
    if kind == 'subclass':
        s = Sub()
        w = BinaryWriter(s)
        for it in items:
            write(w, it)
        c.true(s.getvalue() == data, 'written to a %s: %s, expected %s' % (kind, s.getvalue().hex(), data.hex()))
        check_reads(c, Sub(data), items, kind, len(data))
    elif kind == 'pipe':
        if len(data) > 30000:
            return
        a, b = os.pipe()
        with os.fdopen(a, 'rb', max(size, 2)) as src, os.fdopen(b, 'wb', size if size > 1 else 0) as dst:
            w = BinaryWriter(dst)
            for it in items:
                write(w, it)
            dst.flush()
            r = BinaryReader(src)
            for it in items:
                c.eq(read(r, it), expected(it), 'read of %r from a pipe' % (it,))
            dst.close()
            c.eq(src.read(), b'', 'rest of the pipe')
    else:
        with tempfile.TemporaryDirectory(prefix='pbt-') as d:
            path = os.path.join(d, 'f')
            if kind == 'random access':
                with open(path, 'w+b', max(size, 2)) as s:
                    w, r = BinaryWriter(s), BinaryReader(s)
                    for it in items:
                        at = s.tell()
                        write(w, it)
                        s.seek(at)
                        c.eq(read(r, it), expected(it), 'read of %r just written to a file' % (it,))
                        c.eq(s.tell(), at + len(encode(it)), 'position')
            else:
                with open(path, 'wb', 0 if kind == 'raw file' else max(size, 2)) as s:
                    w = BinaryWriter(s)
                    for it in items:
                        write(w, it)
            with open(path, 'rb') as s:
                got = s.read()
            c.true(got == data, 'written to a %s: %s, expected %s' % (kind, got.hex(), data.hex()))
            with open(path, 'rb', 0 if kind == 'raw file' else max(size, 2)) as s:
                check_reads(c, s, items, kind, len(data))
    c.label(kind)
    c.nontrivial(len(items) >= 3)


def check_reads(c, s, items, kind, n):
    r = BinaryReader(s)
    pos = 0
    for it in items:
        c.eq(read(r, it), expected(it), 'read of %r from a %s' % (it, kind))
        pos += len(encode(it))
        c.eq(s.tell(), pos, 'position after reading %r from a %s' % (it, kind))
    c.eq(pos, n, 'end')
