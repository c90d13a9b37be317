"""C03 strings and byte strings, C04 160/256-bit values, C05 lists."""
import io

from hypothesis import strategies as st

from pbt import findings, gen, ref
from pbt.core import facet

from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from pbt.facets.io_fixed import writer_at

LENS = [0, 1, 2, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0xfffe, 0xffff, 0x10000, 0x10001]


def payload():
    """('b', bytes) or ('p', pattern, length)"""
    return st.one_of(gen.blobs(0, 64).map(lambda b: ('b', b)),
                     st.tuples(st.just('p'), st.binary(min_size=1, max_size=5), st.one_of(gen.integers(0, 700), st.sampled_from(LENS[:14]))),
                     st.tuples(st.just('p'), st.sampled_from([b'ab', b'00', b'F', b'\0', b'\xff']), st.sampled_from(LENS)))


def large_payload():
    return st.tuples(st.just('p'), st.one_of(st.sampled_from([b'ab', b'00', b'F', b'\0', b'\xff']), st.binary(min_size=1, max_size=5)), gen.large_sizes())


def unpack(p):
    return p[1] if p[0] == 'b' else gen.expand((p[1], p[2]))


@facet('C03', lambda: st.tuples(payload(), st.sampled_from(['bytes', 'bytes', 'bytearray']), st.sampled_from(['reader', 'reader', 'exact', 'below', 'string']), gen.blobs(0, 4), gen.blobs(0, 4)),
       6000, 'longer than 0xfc bytes, or hex-looking, or with a maximum', shards=4)
def varbytes(c, case):
    p, kind, mode, pre, post = case
    data = unpack(p)
    s, wr = writer_at(pre)
    arg = data if kind == 'bytes' else bytearray(data)
    wr.WriteVarBytes(arg)
    enc = ref.varint(len(data)) + data
    c.true(s.getvalue() == pre + enc, 'WriteVarBytes of %d bytes wrote %d: %s..' % (len(data), len(s.getvalue()) - len(pre), s.getvalue()[len(pre):][:40].hex()))
    c.true(arg == data, 'WriteVarBytes modified its argument')
    s = io.BytesIO(pre + enc + post)
    s.seek(len(pre))
    r = BinaryReader(s)
    n = len(data)
    if mode == 'below' and n:
        c.raises(lambda: r.ReadVarBytes(n - 1), 'ReadVarBytes(max=%d) of %d bytes' % (n - 1, n))
        s.seek(len(pre))
        c.raises(lambda: r.ReadVarString(n - 1), 'ReadVarString(max=%d) of %d bytes' % (n - 1, n))
    else:
        f = r.ReadVarString if mode == 'string' else r.ReadVarBytes
        got = f(n) if mode == 'exact' else f()
        c.true(got == data, '%s returned %d bytes for %d' % (f.__name__, len(got), n))
        c.eq(s.tell(), len(pre) + len(enc), 'position')
    c.label(mode)
    c.label('len>=0xfd' if n >= 0xfd else 'len<0xfd')
    c.nontrivial(n >= 0xfd or mode in ('exact', 'below') or bool(n and findings.hex_looking(data)))


@facet('C03', lambda: st.tuples(payload(), st.sampled_from(['<', '>', '>']), st.booleans(), gen.blobs(0, 4)), 1500, 'big endian and at least 0xfd bytes')
def varbytes_order(c, case):
    """the documented byte order of the length"""
    p, e, named, pre = case
    data = unpack(p)
    s, wr = writer_at(pre)
    wr.WriteVarBytes(data, **{'endian': e}) if named else wr.WriteVarBytes(data, e)
    n = ref.varint(len(data))
    if e == '>':
        n = n[:1] + n[:0:-1]
    c.true(s.getvalue() == pre + n + data, 'WriteVarBytes(%d bytes, %r) wrote %s..' % (len(data), e, s.getvalue()[len(pre):][:40].hex()))
    c.nontrivial(len(data) >= 0xfd and e == '>')
    c.label(e)


@facet('C03', lambda: st.tuples(large_payload(), st.sampled_from(['bytes', 'bytearray']), st.sampled_from(['reader', 'exact', 'below', 'string']), gen.blobs(0, 4), gen.blobs(0, 4)), 120, 'every case', shards=2, fuzz=False, seq=0)
def large_varbytes(c, case):
    varbytes(c, case)
    p = case[0]
    data = unpack(p)
    s, wr = writer_at(case[3])
    wr.WriteVarString(data.decode('latin-1'), encoding='latin-1')
    c.true(s.getvalue() == case[3] + ref.varint(len(data)) + data, 'WriteVarString of %d characters' % len(data))
    s, wr = writer_at(b'')
    text = 'x' * (len(data) % 1000)
    wr.WriteFixedString(text, len(data))
    c.true(s.getvalue() == text.encode().ljust(len(data), b'\0'), 'WriteFixedString of a field of %d bytes' % len(data))
    s.seek(0)
    c.eq(BinaryReader(s).ReadFixedString(len(data)), text.encode(), 'ReadFixedString')
    c.nontrivial()


ENC = ['utf-8', 'utf-8', None, 'ascii', 'latin-1', 'utf-16', 'utf-16-le', 'utf-32', 'utf-16-be', 'gb18030']


@facet('C03', lambda: st.tuples(st.sampled_from([(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 1] + gen.sizes_near(2500000, 40000000, (1,))), st.sampled_from(['bytes', 'text']), gen.integers(1, 255)), 4, 'every case', shards=2, thorough=3,
       fuzz=False, seq=0, corpus=lambda: [((1 << 24) + 1, 'bytes', 7), ((1 << 25) + 1, 'text', 65)])
def huge_varbytes(c, case):
    """lengths beyond the sixteen and thirty-two megabytes which network messages are limited to"""
    n, kind, b = case
    b = b & 127 if kind == 'text' else b
    data = bytes([b]) * (n - 1) + b'z'
    s = io.BytesIO()
    w = BinaryWriter(s)
    if kind == 'text':
        w.WriteVarString(data.decode())
    else:
        w.WriteVarBytes(data)
    c.true(s.getvalue() == ref.varint(n) + data, '%d bytes written as %d bytes' % (n, len(s.getvalue())))
    s.write(b'rest')
    s.seek(0)
    got = BinaryReader(s).ReadVarString() if kind == 'text' else BinaryReader(s).ReadVarBytes()
    c.true(got == data, '%d bytes read as %d bytes' % (n, len(got)))
    c.eq(s.tell(), len(ref.varint(n)) + n, 'position')
    c.nontrivial()


@facet('C03', lambda: st.tuples(gen.texts(0, 40), st.sampled_from(ENC), gen.integers(1, 400).flatmap(lambda k: st.sampled_from([1, 1, 1, k])), st.booleans(), gen.blobs(0, 4), gen.blobs(0, 4)), 6000,
       'non-empty text', shards=4)
def varstring(c, case):
    text, enc, rep, asbytes, pre, post = case
    text = text * rep
    e = enc or 'utf-8'
    try:
        data = text.encode(e)
    except UnicodeEncodeError:
        e, enc = 'utf-8', 'utf-8'
        data = text.encode(e)
    s, wr = writer_at(pre)
    args = () if enc is None else (enc,)
    wr.WriteVarString(data if asbytes else text, *args)
    exp = ref.varint(len(data)) + data
    c.true(s.getvalue() == pre + exp, 'WriteVarString(%r.., %s) wrote %s..' % (text[:40], e, s.getvalue()[len(pre):][:60].hex()))
    s = io.BytesIO(pre + exp + post)
    s.seek(len(pre))
    got = BinaryReader(s).ReadVarString()
    c.true(bytes(got) == data and bytes(got).decode(e) == text, 'ReadVarString returned %r..' % got[:60])
    c.eq(s.tell(), len(pre) + len(exp), 'position')
    s.seek(len(pre))
    c.true(bytes(BinaryReader(s).ReadVarString(max=len(data))) == data, 'ReadVarString(max=length) differs')
    c.label(e)
    c.label('len>=0xfd' if len(data) >= 0xfd else 'len<0xfd')
    c.nontrivial(bool(text))


RAW = {'bytes': bytes, 'bytearray': bytearray, 'memoryview': memoryview}


@facet('C03', lambda: st.tuples(gen.blobs(0, 60), st.sampled_from(sorted(RAW)), st.sampled_from(ENC), st.sampled_from([1, 1, 1, 9, 70, 300])), 2500, 'bytes that are not text')
def bytes_as_string(c, case):
    """bytes of any kind are stored as they are, also by the writer for text"""
    data, kind, enc, rep = case
    data = data * rep
    exp = ref.varint(len(data)) + data
    given = RAW[kind](data)
    s, wr = writer_at(b'')
    wr.WriteVarBytes(given)
    c.true(s.getvalue() == exp, 'WriteVarBytes of %s %s..' % (kind, data[:40].hex()))
    s, wr = writer_at(b'')
    wr.WriteVarString(given, *(() if enc is None else (enc,)))
    c.true(s.getvalue() == exp, 'WriteVarString of %s %s.. (%s) wrote %s..' % (kind, data[:40].hex(), enc, s.getvalue()[:60].hex()))
    c.true(bytes(given) == data, 'the given bytes changed')
    for got in (BinaryReader(io.BytesIO(exp)).ReadVarBytes(), BinaryReader(io.BytesIO(exp)).ReadVarString()):
        c.true(bytes(got) == data, 'read back %s..' % bytes(got)[:60].hex())
    try:
        data.decode('utf-8')
    except UnicodeDecodeError:
        c.nontrivial()


FOREIGN = {'ascii': 'é中\x80\xff😀', 'latin-1': '中Ā\u2028😀', 'utf-8': '\ud800\udfff\udc80', 'utf-16': '\udc00\ud83d', 'cp1252': '\x81中', 'no-such-codec': 'a', None: '\ud800\udc80'}


@facet('C03', lambda: st.tuples(st.sampled_from(sorted(FOREIGN, key=str)), gen.texts(0, 12), gen.texts(0, 12), gen.integers(0, 9), gen.integers(0, 40), gen.blobs(0, 4)), 1500, 'every case')
def not_encodable(c, case):
    """text that the encoding cannot represent is refused; nothing is written in its place"""
    e, a, b, k, room, pre = case
    bad = FOREIGN[e]
    text = a + bad[k % len(bad)] + b
    args = () if e is None else (e,)
    try:
        text.encode(*args)
        return
    except (UnicodeEncodeError, LookupError):
        pass
    s, wr = writer_at(pre)
    c.raises(lambda: wr.WriteVarString(text, *args), 'WriteVarString(%r, %s)' % (text, e))
    c.eq(s.getvalue(), pre, 'stream after a refused WriteVarString')
    if e in (None, 'utf-8'):
        c.raises(lambda: wr.WriteFixedString(text, room), 'WriteFixedString(%r, %d)' % (text, room))
        c.eq(s.getvalue(), pre, 'stream after a refused WriteFixedString')
    c.nontrivial()
    c.label(str(e))


@facet('C03', lambda: st.tuples(gen.texts(0, 24).map(lambda t: t.rstrip('\0')), st.one_of(gen.integers(0, 12), gen.integers(0, 300), gen.integers(-30, -1)), gen.blobs(0, 4), gen.blobs(0, 4)), 5000,
       'text shorter than the field by less than 3 bytes, exact, too long or non-ASCII')
def fixedstring(c, case):
    text, pad, pre, post = case
    data = text.encode('utf-8')
    n = len(data) + pad
    s, wr = writer_at(pre)
    if n < len(data):
        n = max(0, n)
        if n >= len(data):
            return
        c.raises(lambda: wr.WriteFixedString(text, n), 'WriteFixedString(%r, %d)' % (text, n))
        c.eq(s.getvalue(), pre, 'stream after a refused WriteFixedString')
        c.nontrivial()
        c.label('too long')
        return
    wr.WriteFixedString(text, n)
    exp = data + b'\0' * (n - len(data))
    c.eq(s.getvalue(), pre + exp, 'WriteFixedString(%r, %d)' % (text, n))
    s = io.BytesIO(pre + exp + post)
    s.seek(len(pre))
    got = BinaryReader(s).ReadFixedString(n)
    c.eq(bytes(got).decode('utf-8'), text, 'ReadFixedString(%d)' % n)
    c.eq(s.tell(), len(pre) + n, 'position')
    c.nontrivial(n - len(data) < 3 or len(data) != len(text))
    c.label('fits')


@facet('C03', lambda: st.tuples(gen.blobs(0, 255), gen.blobs(0, 4), gen.blobs(0, 4)), 2000, 'non-empty string')
def readstring(c, case):
    data, pre, post = case
    s = io.BytesIO(pre + bytes([len(data)]) + data + post)
    s.seek(len(pre))
    c.eq(BinaryReader(s).ReadString(), data, 'ReadString')
    c.eq(s.tell(), len(pre) + 1 + len(data), 'position')
    c.nontrivial(bool(data))


@facet('C03', lambda: st.tuples(gen.blobs(0, 80), st.booleans(), gen.blobs(0, 4), gen.integers(0, 5)), 3000, 'data that is non-empty')
def rawbytes(c, case):
    """bytes written without hex conversion are stored as they are; hex text written with it is stored decoded"""
    data, hexed, pre, extra = case
    s, wr = writer_at(pre)
    if hexed:
        wr.WriteBytes(data.hex().encode())
    else:
        wr.WriteBytes(data, unhex=False)
    c.eq(s.getvalue(), pre + data, 'WriteBytes')
    s = io.BytesIO(pre + data + b'\x55' * extra)
    s.seek(len(pre))
    c.eq(BinaryReader(s).ReadBytes(len(data)), data, 'ReadBytes')
    c.eq(s.tell(), len(pre) + len(data), 'position')
    s.seek(len(pre))
    c.eq(BinaryReader(s).SafeReadBytes(len(data)), data, 'SafeReadBytes')
    c.eq(s.tell(), len(pre) + len(data), 'position')
    c.nontrivial(bool(data))
    c.label('hex' if hexed else 'raw')


# ---------------------------------------------------------------- C04

CLS = {20: UInt160, 32: UInt256}


def uint_value():
    return st.sampled_from([20, 32]).flatmap(lambda n: gen.fixed(n))


def views(v):
    """all forms of a value"""
    return v.ToString(), v.ToString2(), v.To0xString(), bytes(v.ToBytes()), str(v), hash(v), v.GetHashCode(), bytes(v.ToArray()), v.Size


@facet('C04', lambda: st.tuples(uint_value(), st.sampled_from(['bytes', 'bytearray']), st.sampled_from(['method', 'writer']), gen.fixed(32), gen.blobs(0, 4), gen.blobs(0, 4)), 9000,
       'value that is not constant over its bytes', shards=4)
def uints(c, case):
    data, kind, how, other, pre, post = case
    n = len(data)
    v = CLS[n](data=data if kind == 'bytes' else bytearray(data))
    s, wr = writer_at(pre)
    if how == 'method':
        v.Serialize(wr)
    else:
        getattr(wr, 'WriteUInt%d' % (8 * n))(v)
    out = s.getvalue()
    if out != pre + data:
        if out[:len(pre)] == pre and findings.kf1_matches(data, out[len(pre):]):
            c.known('KF1', 'value %s is written as %s' % (data.hex(), out[len(pre):].hex()))
        else:
            c.fail('value %s is written as %s' % (data.hex(), out[len(pre):].hex()))
    c.eq(bytes(v.ToArray()), data, 'value after serialization')
    s = io.BytesIO(pre + data + post)
    s.seek(len(pre))
    w = getattr(BinaryReader(s), 'ReadUInt%d' % (8 * n))()
    c.true(type(w) is CLS[n] and w == v and v == w and bytes(w.ToArray()) == data and hash(w) == hash(v) and w.ToString() == v.ToString(), 'ReadUInt%d gives %r' % (8 * n, w.ToString()))
    c.eq(s.tell(), len(pre) + n, 'position')
    # into existing objects: a zero value and another value
    for target in (CLS[n](), CLS[n](data=other[:n]), CLS[n](data=other[:n])):
        if target.ToArray() != bytes(n) or len(pre) % 2:
            # the old value has been used before
            views(target)
            c.eq(target == v, bytes(target.ToArray()) == data, 'comparison before reading')
            {target: 1}.get(v)
            target.Serialize(BinaryWriter(io.BytesIO()))
        s.seek(len(pre))
        target.Deserialize(BinaryReader(s))
        c.true(target == v and hash(target) == hash(v) and bytes(target.ToArray()) == data and str(target) == str(v) and target.GetHashCode() == v.GetHashCode(), 'Deserialize gives %s' % target.ToString())
        c.true(target in {v}, 'set lookup of the read value')
        c.eq(views(target), views(v), 'text forms, bytes and hash of the read value')
        c.true(not target < v and not v < target and target.CompareTo(v) == 0, 'order of the read value')
        back = io.BytesIO()
        target.Serialize(BinaryWriter(back))
        c.eq(back.getvalue(), out[len(pre):], 'the read value serialized again')
        c.eq(s.tell(), len(pre) + n, 'position')
        c.eq(target.Size, n, 'Size')
    c.label(str(8 * n))
    c.nontrivial(len(set(data)) > 1)


@facet('C04', lambda: st.tuples(uint_value(), gen.blobs(0, 4), st.sampled_from(['other', 'bytes', 'none', 'str'])), 800, 'every case')
def uints_wrong_width(c, case):
    data, pre, what = case
    n = len(data)
    v = {'other': CLS[n](data=data), 'bytes': data, 'none': None, 'str': data.hex()}[what]
    s, wr = writer_at(pre)
    names = {20: ['WriteUInt256'], 32: ['WriteUInt160']}[n] if what == 'other' else ['WriteUInt160', 'WriteUInt256']
    for name in names:
        c.raises(lambda: getattr(wr, name)(v), '%s of %r' % (name, v))
        c.eq(s.getvalue(), pre, 'stream after refused ' + name)
    c.nontrivial()


# ---------------------------------------------------------------- C05


class Item:
    """a serializable item of a user: two length-prefixed byte strings"""

    def __init__(self, a=b'', b=0):
        self.a, self.b = a, b

    def Serialize(self, writer):
        writer.WriteVarBytes(self.a)
        writer.WriteUInt32(self.b)

    def Deserialize(self, reader):
        self.a = reader.ReadVarBytes()
        self.b = reader.ReadUInt32()


class Pair:
    def __init__(self, k=None, v=None):
        self.k, self.v = k, v

    def Serialize(self, writer):
        writer.WriteUInt64(self.k)
        writer.WriteSerializableArray(self.v)

    def Deserialize(self, reader):
        self.k = reader.ReadUInt64()
        self.v = reader.ReadSerializableArray('pbt.facets.io_var.Item')


class Falsy(Item):
    """a serializable collection which happens to be empty"""

    def __len__(self):
        return 0


class Same(Item):
    """all items of the class are equal to each other"""

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 7


class Collecting:
    """an item that collects what it reads in attributes made by its constructor"""

    def __init__(self, parts=()):
        self.parts = list(parts)
        self.seen = {}

    def Serialize(self, writer):
        writer.WriteVarInt(len(self.parts))
        for p in self.parts:
            writer.WriteVarBytes(p)

    def Deserialize(self, reader):
        for _ in range(reader.ReadVarInt()):
            self.parts.append(reader.ReadVarBytes())
            self.seen[len(self.seen)] = self.parts[-1]


class Slots:
    """an item without attribute dictionary"""
    __slots__ = ('a', 'b')

    def __init__(self):
        self.a, self.b = b'', 0

    def Serialize(self, writer):
        writer.WriteVarBytes(self.a)
        writer.WriteUInt32(self.b)

    def Deserialize(self, reader):
        self.a = reader.ReadVarBytes()
        self.b = reader.ReadUInt32()


def other_module():
    """a module with classes of the names used elsewhere, but another layout"""
    import sys
    import types
    m = types.ModuleType('pbt_other_items')

    class Item:
        def __init__(self, a=b'', b=0):
            self.a, self.b = a, b

        def Serialize(self, writer):
            writer.WriteUInt16(self.b & 0xffff)
            writer.WriteVarBytes(self.a[::-1])

        def Deserialize(self, reader):
            self.b = reader.ReadUInt16()
            self.a = reader.ReadVarBytes()[::-1]

    class UInt160(Item):
        pass

    class It(Item):
        pass
    m.Item, m.UInt160, m.It = Item, UInt160, It
    for k in (Item, UInt160, It):
        k.__module__ = m.__name__
    sys.modules[m.__name__] = m
    return m


OTHER = other_module()
COUNTS = [0, 1, 2, 3, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 300]


def hash_list():
    """a few hashes repeated cyclically with a counter, so that long lists stay small as literals"""
    return st.tuples(st.lists(gen.fixed(32), min_size=1, max_size=6), st.one_of(gen.integers(0, 8), st.sampled_from(COUNTS), gen.integers(0, 600)))


def grow(t):
    base, n = t
    out = []
    for i in range(n):
        b = bytearray(base[i % len(base)])
        if i >= len(base):
            b[i % 32] ^= 1 + (i // len(base)) % 255
        out.append(bytes(b))
    return out


@facet('C05', lambda: st.tuples(hash_list(), st.sampled_from(['bytes', 'str', 'upper', 'bytearray', 'mixed']), gen.blobs(0, 4), gen.blobs(0, 4)), 3000, 'at least two different hashes', shards=4)
def hashes(c, case):
    t, form, pre, post = case
    hs = grow(t)
    s, wr = writer_at(pre)
    conv = {'bytes': lambda h: h.hex().encode(), 'str': lambda h: h.hex(), 'upper': lambda h: h.hex().upper(), 'bytearray': lambda h: bytearray(h.hex().encode()), 'mixed': lambda h: [h.hex(), h.hex().encode(), bytearray(h.hex().encode())][h[0] % 3]}[form]
    arg = [conv(h) for h in hs]
    wr.WriteHashes(arg)
    enc = ref.varint(len(hs)) + b''.join(h[::-1] for h in hs)
    c.true(s.getvalue() == pre + enc, 'WriteHashes of %d hashes wrote %d bytes: %s..' % (len(hs), len(s.getvalue()) - len(pre), s.getvalue()[len(pre):][:80].hex()))
    c.eq(arg, [conv(h) for h in hs], 'argument list')
    s = io.BytesIO(pre + enc + post)
    s.seek(len(pre))
    got = BinaryReader(s).ReadHashes()
    c.true([bytes.fromhex(h) for h in got] == hs, 'ReadHashes returned %d hashes: %r..' % (len(got), got[:2]))
    c.eq(s.tell(), len(pre) + len(enc), 'position')
    c.label('count>=0xfd' if len(hs) >= 0xfd else 'count<0xfd')
    c.nontrivial(len(set(hs)) > 1)


LONG = [65534, 65535, 65536, 65537, 70001]


@facet('C05', lambda: st.tuples(st.sampled_from(['hashes', 'items', 'values']), st.one_of(st.sampled_from(LONG + [n for n in gen.LARGE if n <= 150000]), gen.integers(1000, 70000)), gen.fixed(28), st.booleans()), 12, 'every case',
       shards=4, thorough=4, fuzz=False, seq=0, corpus=lambda: [(k, n, bytes(range(28)), True) for k in ('hashes', 'items', 'values') for n in (65535, 65536, 70001)])
def long_lists(c, case):
    """lists with more items than fit two bytes of count"""
    kind, n, base, exact = case
    s = io.BytesIO()
    w = BinaryWriter(s)
    raw = [b'\xff' + i.to_bytes(3, 'big') + base for i in range(n)]
    if kind == 'hashes':
        w.WriteHashes([h.hex() for h in raw])
        enc = [h[::-1] for h in raw]
    elif kind == 'items':
        w.WriteSerializableArray([Item(h[:5], i) for i, h in enumerate(raw)])
        enc = [b'\5' + h[:5] + i.to_bytes(4, 'little') for i, h in enumerate(raw)]
    else:
        w.WriteSerializableArray([UInt256(data=h) for h in raw])
        enc = raw
    data = ref.varint(n) + b''.join(enc)
    c.true(s.getvalue() == data, '%d %s written as %d bytes and not %d' % (n, kind, len(s.getvalue()), len(data)))
    s = io.BytesIO(data + b'rest')
    r = BinaryReader(s)
    if kind == 'hashes':
        got = [bytes.fromhex(h) for h in r.ReadHashes()]
    else:
        got = r.ReadSerializableArray('pbt.facets.io_var.Item' if kind == 'items' else 'neocore.UInt256.UInt256', *([n] if exact else []))
        got = [x.a + x.b.to_bytes(4, 'little') for x in got] if kind == 'items' else [bytes(x.ToArray()) for x in got]
    c.true(got == ([e[1:] for e in enc] if kind == 'items' else raw), '%d %s read as %d other ones' % (n, kind, len(got)))
    c.eq(s.tell(), len(data), 'position')
    c.nontrivial()


@facet('C05', lambda: st.tuples(st.lists(gen.fixed(32), min_size=1, max_size=8), gen.blobs(0, 3), st.sampled_from([False, True, 'bytearray'])), 64, 'every case', shards=4, thorough=10)
def header_hashes(c, case):
    base, pre, asbytes = case
    hs = grow((base, 2000))
    s, wr = writer_at(pre)
    wr.Write2000256List([bytearray(h.hex().encode()) if asbytes == 'bytearray' else h.hex().encode() if asbytes else h.hex() for h in hs])
    raw = b''.join(h[::-1] for h in hs)
    c.true(s.getvalue() == pre + raw, 'Write2000256List wrote %d bytes' % (len(s.getvalue()) - len(pre)))
    s = io.BytesIO(pre + raw.hex().encode() + b'tail')
    s.seek(len(pre))
    got = BinaryReader(s).Read2000256List()
    c.eq(len(got), 2000, 'Read2000256List count')
    c.true([bytes.fromhex(g.decode()) for g in got] == hs, 'Read2000256List returns other hashes')
    c.eq(s.tell(), len(pre) + 128000, 'position')
    c.nontrivial()


def item_list():
    item = st.tuples(gen.blobs(0, 20), gen.ints(0, 2 ** 32 - 1))
    return st.tuples(st.lists(item, max_size=8), st.one_of(gen.integers(0, 8), st.sampled_from(COUNTS)))


def grow_items(t):
    base, n = t
    if not base:
        return []
    return [(a + bytes([i & 255, i >> 8]) if i >= len(base) else a, b) for i, (a, b) in ((i, base[i % len(base)]) for i in range(n))]


@facet('C05', lambda: st.tuples(item_list(), st.sampled_from([None, 'exact', 'below']), gen.blobs(0, 4), gen.blobs(0, 4)), 2400, 'at least two items', shards=4)
def serializable(c, case):
    t, mx, pre, post = case
    items = grow_items(t)
    s, wr = writer_at(pre)
    arr = [Item(a, b) for a, b in items]
    wr.WriteSerializableArray(arr)
    enc = ref.varint(len(items)) + b''.join(ref.varint(len(a)) + a + b.to_bytes(4, 'little') for a, b in items)
    c.true(s.getvalue() == pre + enc, 'WriteSerializableArray of %d items wrote %d bytes' % (len(items), len(s.getvalue()) - len(pre)))
    c.eq([(x.a, x.b) for x in arr], items, 'items after writing')
    s = io.BytesIO(pre + enc + post)
    s.seek(len(pre))
    r = BinaryReader(s)
    if mx == 'below' and items:
        c.raises(lambda: r.ReadSerializableArray('pbt.facets.io_var.Item', max=len(items) - 1), 'array of %d items with maximum %d' % (len(items), len(items) - 1))
    else:
        got = r.ReadSerializableArray('pbt.facets.io_var.Item', *((len(items),) if mx == 'exact' else ()))
        c.eq([(x.a, x.b) for x in got], items, 'ReadSerializableArray')
        c.true(all(type(x) is Item for x in got) and len(set(map(id, got))) == len(got), 'distinct Item objects')
        c.eq(s.tell(), len(pre) + len(enc), 'position')
    c.label('count>=0xfd' if len(items) >= 0xfd else 'count<0xfd')
    c.nontrivial(len(items) > 1)


@facet('C05', lambda: st.tuples(st.sampled_from(['Falsy', 'Same', 'Slots', 'Collecting']), item_list(), st.sampled_from(['list', 'tuple', 'once more']), gen.blobs(0, 4), gen.blobs(0, 4)), 1500, 'at least two items')
def unusual_items(c, case):
    """items which are empty collections, all equal, without attribute dictionary, or which collect what they read"""
    kind, t, form, pre, post = case
    items = grow_items((t[0], min(t[1], 260)))
    cls = globals()[kind]
    arr = []
    for a, b in items:
        if kind == 'Collecting':
            arr.append(cls([a[i:i + 3] for i in range(0, len(a), 3)]))
        else:
            x = cls()
            x.a, x.b = a, b
            arr.append(x)
    one = (lambda x: ref.varint(len(x.parts)) + b''.join(ref.varint(len(p)) + p for p in x.parts)) if kind == 'Collecting' else (lambda x: ref.varint(len(x.a)) + x.a + x.b.to_bytes(4, 'little'))
    enc = ref.varint(len(arr)) + b''.join(map(one, arr))
    s, wr = writer_at(pre)
    wr.WriteSerializableArray(tuple(arr) if form == 'tuple' else arr)
    c.true(s.getvalue() == pre + enc, '%d items of class %s written as %d bytes' % (len(arr), kind, len(s.getvalue()) - len(pre)))
    s = io.BytesIO(pre + enc + post)
    for _ in range(2 if form == 'once more' else 1):
        s.seek(len(pre))
        got = BinaryReader(s).ReadSerializableArray('pbt.facets.io_var.' + kind)
        c.true(all(type(x) is cls for x in got) and len(set(map(id, got))) == len(got), 'distinct items of class ' + kind)
        c.true(b''.join(map(one, got)) == enc[len(ref.varint(len(arr))):], 'items of class %s read: %d' % (kind, len(got)))
        if kind == 'Collecting':
            c.true(all(list(x.seen.values()) == x.parts for x in got), 'collected parts')
        c.eq(s.tell(), len(pre) + len(enc), 'position')
    c.nontrivial(len(arr) > 1)
    c.label(kind)


def typed_lists():
    item = st.tuples(gen.blobs(0, 6), gen.integers(0, 0xffff))
    return st.lists(st.tuples(st.sampled_from(['pbt.facets.io_var.Item', 'pbt_other_items.Item', 'pbt_other_items.UInt160', 'pbt_other_items.It', 'neocore.UInt160.UInt160', 'neocore.UInt256.UInt256']), st.lists(item, max_size=4)), min_size=2, max_size=6)


@facet('C05', lambda: st.tuples(typed_lists(), st.booleans()), 1500, 'lists of at least two classes')
def several_classes(c, case):
    """lists of items of different classes (some of the same name) one behind the other on one stream"""
    lists, fresh = case
    s, wr = writer_at(b'')
    made, pos = [], []
    for name, items in lists:
        cls = {'Item': Item, 'UInt160': UInt160, 'UInt256': UInt256}[name.split('.')[-1]] if name.startswith(('pbt.', 'neocore.')) else getattr(OTHER, name.split('.')[-1])
        width = {UInt160: 20, UInt256: 32}.get(cls)
        objs = [cls(data=(b'\x81' + a + b.to_bytes(2, 'little') + bytes(32))[:width]) if width else cls(a, b) for a, b in items]
        wr.WriteSerializableArray(objs)
        made.append((name, cls, objs))
        pos.append(s.tell())
    s.seek(0)
    r = BinaryReader(s)
    for (name, cls, objs), end in zip(made, pos):
        got = (BinaryReader(s) if fresh else r).ReadSerializableArray(name)
        c.true(all(type(x) is cls for x in got), 'classes of the items read as %s: %r' % (name, [type(x) for x in got]))
        view = (lambda x: bytes(x.ToArray())) if cls in (UInt160, UInt256) else (lambda x: (x.a, x.b))
        c.eq([view(x) for x in got], [view(x) for x in objs], 'items read as %s' % name)
        c.eq(s.tell(), end, 'position')
    c.nontrivial(len({name for name, items in lists if items}) > 1)


@facet('C05', lambda: st.tuples(st.lists(st.tuples(gen.ints(0, 2 ** 64 - 1), st.lists(st.tuples(gen.blobs(0, 6), gen.integers(0, 2 ** 32 - 1)), max_size=3)), max_size=5), gen.blobs(0, 3)), 1500,
       'at least two outer items or nested items')
def nested(c, case):
    outer, post = case
    s, wr = writer_at(b'')
    wr.WriteSerializableArray([Pair(k, [Item(a, b) for a, b in v]) for k, v in outer])
    raw = s.getvalue()
    s = io.BytesIO(raw + post)
    got = BinaryReader(s).ReadSerializableArray('pbt.facets.io_var.Pair')
    c.eq([(p.k, [(x.a, x.b) for x in p.v]) for p in got], outer, 'nested array')
    c.eq(s.tell(), len(raw), 'position')
    c.nontrivial(len(outer) > 1 or any(v for _, v in outer))


@facet('C05', lambda: st.tuples(st.sampled_from([20, 32]).flatmap(lambda n: st.tuples(st.just(n), st.lists(gen.fixed(n), max_size=6), st.sampled_from([1, 1, 1, 60]))), gen.blobs(0, 4), gen.blobs(0, 4)), 2000,
       'at least two values')
def uint_arrays(c, case):
    (n, vals, rep), pre, post = case
    vals = [v for v in vals if not findings.hex_looking(v)] * rep
    cls = CLS[n]
    s, wr = writer_at(pre)
    wr.WriteSerializableArray([cls(data=v) for v in vals])
    enc = ref.varint(len(vals)) + b''.join(vals)
    c.true(s.getvalue() == pre + enc, 'array of %d UInt%d wrote %d bytes' % (len(vals), 8 * n, len(s.getvalue()) - len(pre)))
    s = io.BytesIO(pre + enc + post)
    s.seek(len(pre))
    got = BinaryReader(s).ReadSerializableArray('neocore.%s.%s' % (cls.__name__, cls.__name__))
    c.eq([bytes(x.ToArray()) for x in got], vals, 'array of UInt%d' % (8 * n))
    c.true(all(type(x) is cls and x == cls(data=v) and hash(x) == hash(cls(data=v)) for x, v in zip(got, vals)), 'type, equality and hash of read values')
    c.eq(s.tell(), len(pre) + len(enc), 'position')
    c.nontrivial(len(vals) > 1)


@facet('C05', lambda: st.tuples(st.sampled_from(['none', 'empty', 'tuple', 'hashes']), gen.blobs(0, 6), gen.blobs(0, 6)), 400, 'neighbours on the stream')
def empty_lists(c, case):
    kind, pre, post = case
    s, wr = writer_at(pre)
    if kind == 'hashes':
        wr.WriteHashes([])
    else:
        wr.WriteSerializableArray({'none': None, 'empty': [], 'tuple': ()}[kind])
    c.eq(s.getvalue(), pre + b'\0', 'empty list (%s)' % kind)
    s = io.BytesIO(pre + b'\0' + post)
    s.seek(len(pre))
    c.eq(list(BinaryReader(s).ReadHashes() if kind == 'hashes' else BinaryReader(s).ReadSerializableArray('pbt.facets.io_var.Item')), [], 'empty list (%s)' % kind)
    c.eq(s.tell(), len(pre) + 1, 'position')
    c.nontrivial(bool(pre or post))
