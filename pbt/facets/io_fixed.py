"""C01 fixed-width values, C02 variable-length integers."""
import enum
import io
import math
import struct

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet

from neocore.BigInteger import BigInteger
from neocore.Fixed8 import Fixed8
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter


class Chunky(io.BytesIO):
    """a stream like neo-python's MemoryStream: a BytesIO subclass"""


STALE = 0xa5
BEYOND = 4096


class Stale(io.BytesIO):
    """a stream with older content behind the position: what is written goes over it, byte by byte.  getvalue() is what
    has been written, if all of the rest is as it was (and everything otherwise)"""

    def __init__(self):
        super().__init__()
        self.end = 0

    def write(self, b):
        n = super().write(b)
        self.end = self.tell()
        return n

    def fill(self, n):
        """n stale bytes behind the position"""
        at = self.tell()
        super().write(bytes([STALE]) * n)
        self.seek(at)
        return self

    def getvalue(self):
        raw = super().getvalue()
        rest = raw[self.end:]
        return raw[:self.end] if rest == bytes([STALE]) * len(rest) else raw


def writer_at(prefix, cls=None):
    """a stream positioned behind the prefix; every other length of the prefix gives one with older content behind it"""
    s = cls() if cls else Stale() if len(prefix) % 2 else io.BytesIO()
    s.write(prefix)
    if type(s) is Stale:
        s.fill(BEYOND)
    return s, BinaryWriter(s)


INT_KINDS = [('Int8', 1, True), ('UInt8', 1, False), ('Int16', 2, True), ('UInt16', 2, False),
             ('Int32', 4, True), ('UInt32', 4, False), ('Int64', 8, True), ('UInt64', 8, False)]
WIDTH = {k: (w, s) for k, w, s in INT_KINDS}


def rng(kind):
    w, s = WIDTH[kind]
    return (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if s else (0, (1 << 8 * w) - 1)


def as_int(v, how):
    return {'int': int, 'big': BigInteger}[how](v)


def int_case():
    return st.sampled_from([k for k, _, _ in INT_KINDS]).flatmap(lambda k: st.tuples(
        st.just(k), gen.ints(*rng(k)), st.sampled_from(['<', '>', None, '<', '>', '=']), st.sampled_from(['int', 'int', 'int', 'big']),
        gen.blobs(0, 6), gen.blobs(0, 6)))


def order(e):
    import sys
    return {'<': 'little', None: 'little', '>': 'big', '=': sys.byteorder}[e]


@facet('C01', int_case, 9000, 'value outside 0..127, or big endian, or neighbours on the stream', shards=4)
def ints(c, case):
    kind, v, e, how, pre, post = case
    w, signed = WIDTH[kind]
    args = () if e is None else (e,)
    s, wr = writer_at(pre)
    getattr(wr, 'Write' + kind)(as_int(v, how), *args)
    exp = v.to_bytes(w, order(e), signed=signed)
    c.eq(s.getvalue(), pre + exp, 'Write%s(%d, %r)' % (kind, v, e))
    s = io.BytesIO(pre + exp + post)
    s.seek(len(pre))
    got = getattr(BinaryReader(s), 'Read' + kind)(*args)
    c.eq(got, v, 'Read%s(%r) of %s' % (kind, e, exp.hex()))
    c.eq(s.tell(), len(pre) + w, 'position after Read' + kind)
    c.label(kind + ('>' if e == '>' else '<'))
    c.nontrivial(not 0 <= v <= 127 or e == '>' or bool(pre and post))


@facet('C01', lambda: st.sampled_from([k for k, _, _ in INT_KINDS]).flatmap(lambda k: st.tuples(
    st.just(k), st.one_of(gen.integers(1, 300), gen.ints(1, 2 ** 72)), st.booleans(), st.sampled_from(['<', '>', None]), st.sampled_from(['int', 'big']), gen.blobs(0, 4))), 3000,
    'value beyond the range of the width')
def ints_out_of_range(c, case):
    kind, over, below, e, how, pre = case
    lo, hi = rng(kind)
    v = lo - over if below else hi + over
    args = () if e is None else (e,)
    s, wr = writer_at(pre)
    c.raises(lambda: getattr(wr, 'Write' + kind)(as_int(v, how), *args), 'Write%s(%d)' % (kind, v))
    c.eq(s.getvalue(), pre, 'stream after refused Write%s(%d)' % (kind, v))
    c.nontrivial()
    c.label(kind)


@facet('C01', lambda: st.tuples(st.sampled_from([k for k, _, _ in INT_KINDS] + ['Float', 'Double', 'Bool', 'Byte', 'Char', 'Fixed8']), st.sampled_from(['<', '>', None]), gen.fixed(8),
                                gen.blobs(0, 5), gen.blobs(0, 5)), 5000, 'bytes not all equal')
def decode_bytes(c, case):
    """the readers decode arbitrary bytes as the standard encoding"""
    kind, e, raw, pre, post = case
    w = {'Float': 4, 'Double': 8, 'Bool': 1, 'Byte': 1, 'Char': 1, 'Fixed8': 8}.get(kind) or WIDTH[kind][0]
    raw = raw[:w]
    s = io.BytesIO(pre + raw + post)
    s.seek(len(pre))
    r = BinaryReader(s)
    args = () if e is None or kind in ('Bool', 'Byte', 'Char', 'Fixed8') else (e,)
    got = getattr(r, 'Read' + kind)(*args)
    o = order(e) if args else 'little'
    if kind in WIDTH:
        c.eq(got, int.from_bytes(raw, o, signed=WIDTH[kind][1]), 'Read%s(%r)' % (kind, e))
    elif kind in ('Float', 'Double'):
        exp = struct.unpack(('>' if o == 'big' else '<') + ('f' if w == 4 else 'd'), raw)[0]
        c.true(type(got) is float and (got == exp and math.copysign(1, got) == math.copysign(1, exp) or got != got and exp != exp), 'Read%s(%r) of %s: %r' % (kind, e, raw.hex(), got))
    elif kind == 'Bool':
        c.eq(got, raw != b'\0', 'ReadBool of %s' % raw.hex())
    elif kind == 'Byte':
        c.eq(got, raw[0], 'ReadByte')
        s.seek(len(pre))
        c.eq(r.ReadByte(do_ord=False), raw, 'ReadByte(do_ord=False)')
    elif kind == 'Char':
        c.eq(got, raw, 'ReadChar')
    else:
        c.eq(got.value, int.from_bytes(raw, 'little', signed=True), 'ReadFixed8')
    c.eq(s.tell(), len(pre) + w, 'position after Read' + kind)
    c.label(kind)
    c.nontrivial(len(set(raw)) > 1 or w == 1)


def float_bits(n):
    special = {32: [0, 0x80000000, 1, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x3f800000, 0x00800000, 0x007fffff],
               64: [0, 1 << 63, 1, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x3ff0000000000000, 0x0010000000000000]}[n]
    return st.one_of(gen.integers(0, 2 ** n - 1), st.sampled_from(special), gen.integers(-50000, 50000).map(lambda i: int.from_bytes(struct.pack('>f' if n == 32 else '>d', i / 8), 'big')))


@facet('C01', lambda: st.tuples(st.sampled_from([32, 64]).flatmap(lambda n: st.tuples(st.just(n), float_bits(n))), st.sampled_from(['<', '>', None]), gen.blobs(0, 5), gen.blobs(0, 5)),
       3000, 'value other than zero')
def floats(c, case):
    (n, bits), e, pre, post = case
    kind, fmt = ('Float', 'f') if n == 32 else ('Double', 'd')
    v = struct.unpack('>' + fmt, bits.to_bytes(n // 8, 'big'))[0]
    exp = struct.pack(('>' if e == '>' else '<') + fmt, v)
    args = () if e is None else (e,)
    s, wr = writer_at(pre)
    getattr(wr, 'Write' + kind)(v, *args)
    c.eq(s.getvalue(), pre + exp, 'Write%s(%r, %r)' % (kind, v, e))
    s = io.BytesIO(pre + exp + post)
    s.seek(len(pre))
    got = getattr(BinaryReader(s), 'Read' + kind)(*args)
    c.true(got != got if v != v else (got == v and math.copysign(1, got) == math.copysign(1, v)), 'Read%s gives %r for %r' % (kind, got, v))
    c.eq(s.tell(), len(pre) + n // 8, 'position after Read' + kind)
    c.nontrivial(bits & ((1 << n - 1) - 1) != 0)


@facet('C01', lambda: st.tuples(st.one_of(st.floats(min_value=3.5e38, max_value=1e308), st.floats(min_value=-1e308, max_value=-3.5e38)), st.sampled_from(['<', '>']), gen.blobs(0, 4)), 300,
       'finite double beyond the range of a float')
def float_out_of_range(c, case):
    v, e, pre = case
    s, wr = writer_at(pre)
    c.raises(lambda: wr.WriteFloat(v, e), 'WriteFloat(%r)' % v)
    c.eq(s.getvalue(), pre, 'stream after refused WriteFloat')
    c.nontrivial()


def small_case():
    return st.tuples(st.sampled_from(['bool', 'char', 'byteint', 'bytebytes', 'bytestr', 'bytebig', 'fixed8']), gen.ints(-2 ** 63, 2 ** 63 - 1), gen.blobs(0, 5), gen.blobs(0, 5))


class Sub(int):
    pass


@facet('C01', small_case, 4000, 'every case (kind and value vary)')
def small_kinds(c, case):
    kind, v, pre, post = case
    b = v & 0xff
    s, wr = writer_at(pre, Chunky)
    if kind == 'bool':
        wr.WriteBool(bool(v & 1))
        exp, read, val = bytes([v & 1]), 'ReadBool', bool(v & 1)
    elif kind == 'char':
        wr.WriteChar(bytes([b]))
        exp, read, val = bytes([b]), 'ReadChar', bytes([b])
    elif kind == 'byteint':
        wr.WriteByte(b)
        exp, read, val = bytes([b]), 'ReadByte', b
    elif kind == 'bytebig':
        wr.WriteByte(BigInteger(b) if v & 256 else Sub(b))
        exp, read, val = bytes([b]), 'ReadByte', b
    elif kind == 'bytebytes':
        wr.WriteByte(bytes([b]))
        exp, read, val = bytes([b]), 'ReadByte', b
    elif kind == 'bytestr':
        wr.WriteByte(chr(b & 0x7f))
        exp, read, val = bytes([b & 0x7f]), 'ReadByte', b & 0x7f
    else:
        wr.WriteFixed8(Fixed8(v), *((v & 2 != 0,) if v & 1 else ()))
        exp, read, val = v.to_bytes(8, 'little', signed=True), 'ReadFixed8', Fixed8(v)
    c.eq(s.getvalue(), pre + exp, 'written for %s %d' % (kind, v))
    s = Chunky(pre + exp + post)
    s.seek(len(pre))
    got = getattr(BinaryReader(s), read)()
    c.eq(got, val, '%s after writing %s' % (read, kind))
    c.true(type(got) is type(val), '%s returned %r' % (read, got))
    c.eq(s.tell(), len(pre) + len(exp), 'position after ' + read)
    c.label(kind)
    c.nontrivial()


@facet('C01', lambda: st.tuples(st.booleans(), st.one_of(gen.integers(1, 300), gen.ints(1, 2 ** 70)), gen.blobs(0, 4)), 600, 'amount or byte beyond its range')
def small_out_of_range(c, case):
    which, over, pre = case
    for below in (False, True):
        s, wr = writer_at(pre)
        if which:
            v = -over if below else 255 + over
            c.raises(lambda: wr.WriteByte(v), 'WriteByte(%d)' % v)
        else:
            v = -2 ** 63 - over if below else 2 ** 63 - 1 + over
            c.raises(lambda: wr.WriteFixed8(Fixed8(v)), 'WriteFixed8(%d)' % v)
        c.eq(s.getvalue(), pre, 'stream after a refused write of %d' % v)
    c.nontrivial()


# ---------------------------------------------------------------- C02

EDGES = [0, 1, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffffff,
         0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]


def varints():
    return st.one_of(st.sampled_from(EDGES), gen.ints(0, 2 ** 64 - 1), gen.integers(0, 0x200), gen.integers(0xff00, 0x10100), gen.integers(2 ** 32 - 300, 2 ** 32 + 300))


def subclass(v, how):
    if how == 'enum':
        return enum.IntEnum('E', {'A': v}).A
    return {'int': int, 'big': BigInteger, 'sub': Sub}[how](v)


@facet('C02', lambda: st.tuples(varints(), st.sampled_from(['int', 'int', 'int', 'big', 'sub', 'enum']), gen.blobs(0, 5), gen.blobs(0, 9)), 8000,
       'value of at least 0xfd, or an int subclass, or neighbours on the stream', shards=4,
       corpus=lambda: [(v, h, b'', b'') for v in EDGES for h in ('int', 'big')] + [(v, 'int', b'\xfd', b'\xff') for v in range(0, 0x140)])
def varint(c, case):
    v, how, pre, post = case
    s, wr = writer_at(pre)
    wr.WriteVarInt(subclass(v, how))
    enc = ref.varint(v)
    c.eq(s.getvalue(), pre + enc, 'WriteVarInt(%s %#x)' % (how, v))
    if v < 2 ** 63:
        s = io.BytesIO(pre + enc + post)
        s.seek(len(pre))
        got = BinaryReader(s).ReadVarInt()
        c.eq(got, v, 'ReadVarInt of %s' % enc.hex())
        c.true(isinstance(got, int), 'ReadVarInt type %r' % got)
        c.eq(s.tell(), len(pre) + len(enc), 'position after ReadVarInt')
    s = io.BytesIO(pre + enc + post)
    s.seek(len(pre))
    c.eq(BinaryReader(s).ReadVarInt(2 ** 64 - 1), v, 'ReadVarInt(2**64-1) of %s' % enc.hex())
    c.eq(s.tell(), len(pre) + len(enc), 'position after ReadVarInt')
    c.label('%d bytes' % len(enc))
    c.label(how)
    c.nontrivial(v >= 0xfd or how != 'int' or bool(pre and post))


@facet('C02', lambda: st.tuples(varints(), st.sampled_from(['<', '>', '>']), st.sampled_from(['int', 'int', 'big', 'sub']), st.booleans(), gen.blobs(0, 5)), 2500, 'big endian and at least 0xfd')
def varint_order(c, case):
    """the documented byte order of the bytes behind the prefix"""
    v, e, how, named, pre = case
    s, wr = writer_at(pre)
    wr.WriteVarInt(subclass(v, how), **{'endian': e}) if named else wr.WriteVarInt(subclass(v, how), e)
    enc = ref.varint(v)
    if e == '>':
        enc = enc[:1] + enc[:0:-1]
    c.eq(s.getvalue(), pre + enc, 'WriteVarInt(%#x, %r)' % (v, e))
    c.nontrivial(v >= 0xfd and e == '>')
    c.label('%s %d bytes' % (e, len(enc)))


@facet('C02', lambda: st.tuples(varints(), st.sampled_from([2, 4, 8]), gen.blobs(0, 4), gen.blobs(0, 4)), 3000, 'encoding longer than the shortest one')
def varint_longer_forms(c, case):
    v, w, pre, post = case
    v &= (1 << 8 * w) - 1
    enc = {2: b'\xfd', 4: b'\xfe', 8: b'\xff'}[w] + v.to_bytes(w, 'little')
    s = io.BytesIO(pre + enc + post)
    s.seek(len(pre))
    c.eq(BinaryReader(s).ReadVarInt(2 ** 64), v, 'ReadVarInt of %s' % enc.hex())
    c.eq(s.tell(), len(pre) + len(enc), 'position after ReadVarInt')
    c.nontrivial(len(ref.varint(v)) < len(enc))
    c.label('%d bytes' % (w + 1))


@facet('C02', lambda: st.tuples(varints(), st.one_of(varints(), gen.integers(-3, 3).map(lambda d: ('rel', d))), gen.blobs(0, 4)), 4000, 'value above the maximum or equal to it')
def varint_maximum(c, case):
    v, m, post = case
    if isinstance(m, tuple):
        m = max(0, v + m[1])
    for enc in {ref.varint(v), b'\xff' + v.to_bytes(8, 'little')}:
        s = io.BytesIO(enc + post)
        r = BinaryReader(s)
        if v > m:
            c.raises(lambda: r.ReadVarInt(m), 'ReadVarInt(max=%d) of %s' % (m, enc.hex()))
        else:
            c.eq(r.ReadVarInt(max=m), v, 'ReadVarInt(max=%d) of %s' % (m, enc.hex()))
            c.eq(s.tell(), len(enc), 'position')
    c.label('above' if v > m else 'equal' if v == m else 'below')
    c.nontrivial(v >= m)


@facet('C02', lambda: st.tuples(st.one_of(gen.ints(-2 ** 70, -1), st.floats(allow_nan=False, allow_infinity=False), gen.texts(0, 5), gen.blobs(0, 4), st.none(),
                                          st.lists(gen.integers(0, 9), max_size=2)), st.booleans(), gen.blobs(0, 4)), 1500, 'every case: negative or no integer')
def varint_refused(c, case):
    v, big, pre = case
    if big and isinstance(v, int):
        v = BigInteger(v)
    s, wr = writer_at(pre)
    e = c.raises(lambda: wr.WriteVarInt(v), 'WriteVarInt(%r)' % (v,))
    c.eq(s.getvalue(), pre, 'stream after a refused WriteVarInt(%r)' % (v,))
    if not isinstance(v, int):
        c.true(isinstance(e, TypeError), 'WriteVarInt(%r) raised %r, documented is TypeError' % (v, e))
    c.nontrivial()
    c.label(type(v).__name__)
