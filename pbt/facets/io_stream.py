"""C06 framing of mixed sequences, C07 truncated and hostile input."""
import io
import struct

from hypothesis import strategies as st

from pbt import findings, gen, ref
from pbt.core import CheckFailure, Lazy, facet

from neocore.BigInteger import BigInteger
from neocore.Cryptography.ECCurve import ECDSA
from neocore.Fixed8 import Fixed8
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from pbt.facets.io_fixed import INT_KINDS, WIDTH, rng, order, writer_at
from pbt.facets.io_var import CLS, Item

CURVE = Lazy(lambda: ECDSA.secp256r1().Curve)


def nohex(n):
    """KF1 (recorded finding) is excluded by construction"""
    return gen.fixed(n).map(lambda b: bytes([b[0] | 0x80]) + b[1:] if findings.hex_looking(b) else b)


def point_key():
    return st.one_of(gen.integers(1, 12), st.sampled_from(gen.special_keys()[:12]))


def float_bits(n):
    """bit patterns of floats: zeros of both signs and infinities have weight; of the NaNs only one"""
    e, f = (8, 23) if n == 32 else (11, 52)
    inf = ((1 << e) - 1) << f
    top = 1 << n - 1

    def one_nan(b):
        return inf | 1 << f - 1 if b & inf == inf and b & ((1 << f) - 1) else b
    return st.one_of(st.sampled_from([0, top, 0, top, inf, inf | top, inf | 1 << f - 1, 1, top | 1, ((1 << e - 1) - 1) << f]), gen.integers(0, 2 ** n - 1).map(one_nan))


def as_float(it):
    return struct.unpack(*(('>f', it[1].to_bytes(4, 'big')) if it[0] == 'Float' else ('>d', it[1].to_bytes(8, 'big'))))[0]


# writes that are refused and have to leave the stream alone
REFUSED = [lambda w: w.WriteUInt8(256), lambda w: w.WriteInt8(-129), lambda w: w.WriteUInt16(-1), lambda w: w.WriteInt32(2 ** 31), lambda w: w.WriteUInt64(2 ** 64), lambda w: w.WriteVarInt(-1),
           lambda w: w.WriteVarInt('7'), lambda w: w.WriteFixedString('abc', 2), lambda w: w.WriteUInt160(UInt256()), lambda w: w.WriteUInt256(UInt160()), lambda w: w.WriteUInt160(None),
           lambda w: w.WriteFixed8(Fixed8(2 ** 63)), lambda w: w.WriteFloat(1e39), lambda w: w.WriteChar(b'ab'), lambda w: w.WriteDouble('x')]


def item():
    """one (kind, arguments) item; its encoding is given by encode()"""
    ints = st.sampled_from([k for k, _, _ in INT_KINDS]).flatmap(lambda k: st.tuples(st.just(k), gen.ints(*rng(k)), st.sampled_from(['<', '>', None])))
    return st.one_of(
        ints,
        st.tuples(st.just('VarInt'), gen.ints(0, 2 ** 63 - 1), st.booleans()),
        st.tuples(st.just('VarBytes'), gen.blobs(0, 20), st.sampled_from([1, 1, 1, 13, 40, 300, 7000])),
        st.tuples(st.just('VarString'), gen.texts(0, 12), st.sampled_from([1, 1, 1, 30, 300, 7000])),
        st.tuples(st.just('FixedString'), gen.texts(0, 10).map(lambda t: t.rstrip('\0')), gen.integers(0, 9)),
        st.tuples(st.just('UInt160'), nohex(20)),
        st.tuples(st.just('UInt256'), nohex(32)),
        st.tuples(st.just('Fixed8'), gen.ints(-2 ** 63, 2 ** 63 - 1)),
        st.tuples(st.just('Bool'), st.booleans()),
        st.tuples(st.just('Char'), gen.integers(0, 255)),
        st.tuples(st.just('Byte'), gen.integers(0, 255)),
        st.tuples(st.just('Float'), float_bits(32), st.sampled_from(['<', '>', None])),
        st.tuples(st.just('Double'), float_bits(64), st.sampled_from(['<', '>', None])),
        st.tuples(st.just('Refused'), gen.integers(0, len(REFUSED) - 1)),
        st.tuples(st.just('Hashes'), st.lists(gen.fixed(32), max_size=4), st.sampled_from([1, 1, 1, 70, 300])).map(lambda t: (t[0], t[1] * t[2])),
        st.tuples(st.just('Array'), st.one_of(st.none(), st.tuples(st.lists(st.tuples(gen.blobs(0, 6), gen.integers(0, 2 ** 32 - 1)), max_size=4), st.sampled_from([1, 1, 1, 70, 300])).map(lambda t: t[0] * t[1]))),
        st.tuples(st.just('Raw'), gen.blobs(0, 12), st.sampled_from([1, 1, 1, 30, 300, 7000])).map(lambda t: (t[0], t[1] * t[2])),
        st.tuples(st.just('Point'), point_key(), st.booleans()),
        st.tuples(st.just('Infinity')))


def encode(it):
    k = it[0]
    if k in WIDTH:
        return it[1].to_bytes(WIDTH[k][0], order(it[2]), signed=WIDTH[k][1])
    if k == 'VarInt':
        return ref.varint(it[1])
    if k == 'VarBytes':
        b = it[1] * it[2]
        return ref.varint(len(b)) + b
    if k == 'VarString':
        b = (it[1] * it[2]).encode('utf-8')
        return ref.varint(len(b)) + b
    if k == 'FixedString':
        b = it[1].encode('utf-8')
        return b + b'\0' * it[2]
    if k in ('UInt160', 'UInt256', 'Raw'):
        return it[1]
    if k == 'Fixed8':
        return it[1].to_bytes(8, 'little', signed=True)
    if k == 'Bool':
        return bytes([it[1]])
    if k in ('Char', 'Byte'):
        return bytes([it[1]])
    if k in ('Float', 'Double'):
        return it[1].to_bytes(4 if k == 'Float' else 8, 'big' if it[2] == '>' else 'little')
    if k == 'Refused':
        return b''
    if k == 'Hashes':
        return ref.varint(len(it[1])) + b''.join(h[::-1] for h in it[1])
    if k == 'Array':
        a = it[1] or []
        return ref.varint(len(a)) + b''.join(ref.varint(len(x)) + x + y.to_bytes(4, 'little') for x, y in a)
    if k == 'Point':
        return ref.sec1(point(it))
    if k == 'Infinity':
        return b'\0'
    raise ValueError(k)


def point(it):
    P = ref.pub(it[1])
    return ref.P256.neg(P) if it[2] else P


def write(w, it):
    k = it[0]
    if k in WIDTH or k in ('Float', 'Double'):
        v = it[1] if k in WIDTH else as_float(it)
        getattr(w, 'Write' + k)(v, *(() if it[2] is None else (it[2],)))
    elif k == 'VarInt':
        w.WriteVarInt(BigInteger(it[1]) if it[2] else it[1])
    elif k == 'VarBytes':
        w.WriteVarBytes(it[1] * it[2])
    elif k == 'VarString':
        w.WriteVarString(it[1] * it[2])
    elif k == 'FixedString':
        w.WriteFixedString(it[1], len(it[1].encode('utf-8')) + it[2])
    elif k == 'UInt160':
        w.WriteUInt160(UInt160(data=it[1]))
    elif k == 'UInt256':
        w.WriteUInt256(UInt256(data=it[1]))
    elif k == 'Raw':
        w.WriteBytes(it[1], unhex=False)
    elif k == 'Fixed8':
        w.WriteFixed8(Fixed8(it[1]))
    elif k == 'Bool':
        w.WriteBool(it[1])
    elif k == 'Char':
        w.WriteChar(bytes([it[1]]))
    elif k == 'Byte':
        w.WriteByte(it[1])
    elif k == 'Hashes':
        w.WriteHashes([h.hex().encode() for h in it[1]])
    elif k == 'Array':
        w.WriteSerializableArray(None if it[1] is None else [Item(a, b) for a, b in it[1]])
    elif k == 'Point':
        P = point(it)
        CURVE.point(*P).Serialize(w)
    elif k == 'Infinity':
        CURVE.Infinity.Serialize(w)
    elif k == 'Refused':
        try:
            REFUSED[it[1]](w)
        except Exception:
            pass
        else:
            raise CheckFailure('write number %d is not refused' % it[1])
    else:
        raise ValueError(k)


def limit(it):
    """the smallest maximum that lets the item through"""
    k = it[0]
    if k == 'VarInt':
        return it[1]
    if k in ('VarBytes', 'VarString'):
        return len(expected(it))
    return len(it[1] or [])


def read(r, it, tight=False):
    """value read, in the form of expected()"""
    k = it[0]
    if tight and k in ('VarInt', 'VarBytes', 'VarString'):
        return getattr(r, 'Read' + k)(limit(it))
    if tight and k == 'Array':
        return [(x.a, x.b) for x in r.ReadSerializableArray('pbt.facets.io_var.Item', max=limit(it))]
    if k in ('Float', 'Double'):
        v = getattr(r, 'Read' + k)(*(() if it[2] is None else (it[2],)))
        return int.from_bytes(struct.pack('>f' if k == 'Float' else '>d', v), 'big')
    if k == 'Refused':
        return it[1]
    if k in WIDTH:
        return getattr(r, 'Read' + k)(*(() if it[2] is None else (it[2],)))
    if k in ('VarInt', 'VarBytes', 'VarString', 'Bool', 'Char', 'Byte'):
        return getattr(r, 'Read' + k)()
    if k == 'FixedString':
        return r.ReadFixedString(len(it[1].encode('utf-8')) + it[2])
    if k in ('UInt160', 'UInt256'):
        return bytes(getattr(r, 'Read' + k)().ToArray())
    if k == 'Raw':
        return r.ReadBytes(len(it[1]))
    if k == 'Fixed8':
        return r.ReadFixed8().value
    if k == 'Hashes':
        return [bytes.fromhex(h) for h in r.ReadHashes()]
    if k == 'Array':
        return [(x.a, x.b) for x in r.ReadSerializableArray('pbt.facets.io_var.Item')]
    if k in ('Point', 'Infinity'):
        p = ECDSA.Deserialize_Secp256r1(r)
        return 'inf' if p.IsInfinity else (p.x.value, p.y.value)
    raise ValueError(k)


def expected(it):
    k = it[0]
    if k in ('VarBytes',):
        return it[1] * it[2]
    if k == 'VarString':
        return (it[1] * it[2]).encode('utf-8')
    if k == 'FixedString':
        return it[1].encode('utf-8')
    if k == 'Char':
        return bytes([it[1]])
    if k == 'Array':
        return it[1] or []
    if k == 'Point':
        return point(it)
    if k == 'Infinity':
        return 'inf'
    return it[1]


@facet('C06', lambda: st.tuples(st.lists(item(), min_size=1, max_size=14), gen.blobs(0, 5), st.booleans(), st.one_of(st.just(0), gen.integers(0, 2 ** 14 - 1))), 4000, 'at least three items of at least two kinds', shards=8)
def sequence(c, case):
    items, pre, whole, tight = case
    s, w = writer_at(pre)    # (sometimes with older content behind the position)
    log = pre
    for it in items:
        write(w, it)
        log += encode(it)
        if not whole:
            c.true(s.getvalue() == log, 'after writing %r the stream is ..%s, expected ..%s' % (it, s.getvalue()[-60:].hex(), log[-60:].hex()))
    c.true(s.getvalue() == log, 'stream is %s, expected %s' % (s.getvalue().hex(), log.hex()))
    c.eq(s.tell(), len(log), 'position after writing')
    s = io.BytesIO(log) if type(s) is not io.BytesIO else s
    s.seek(len(pre))
    r = BinaryReader(s)
    pos = len(pre)
    for n, it in enumerate(items):
        got = read(r, it, tight >> n & 1)
        c.eq(got, expected(it), 'read of %r%s' % (it, ' with the exact maximum' if tight >> n & 1 else ''))
        pos += len(encode(it))
        c.eq(s.tell(), pos, 'position after reading %r' % (it,))
    c.eq(s.tell(), len(log), 'end of stream')
    c.true(s.getvalue() == log, 'reading changed the stream')
    c.nontrivial(len(items) >= 3 and len({i[0] for i in items}) >= 2)
    for k in {i[0] for i in items}:
        c.label(k)


def early_reads(c, s, r):
    """a reader that is ahead of the writer: nothing is there yet"""
    for read_one in (lambda: r.ReadUInt64(), lambda: r.ReadUInt256(), lambda: r.SafeReadBytes(1), lambda: UInt160().Deserialize(r)):
        s.seek(0, 2)
        c.raises(read_one, 'a read at the end of the stream')
    s.seek(0, 2)
    c.eq(r.ReadBytes(5), b'', 'ReadBytes at the end of the stream')


def queue_ops():
    rd, it = st.tuples(st.just('read'), gen.integers(1, 4)), item()
    return st.lists(st.sampled_from([0, 0, 1]).flatmap(lambda r: rd if r else it), min_size=3, max_size=20)


@facet('C06', queue_ops, 2500,
       'a read between two writes', shards=6)
def interleaved(c, case):
    """one stream used as a queue: items are read back while later ones are still being written"""
    s = io.BytesIO()
    w, r = BinaryWriter(s), BinaryReader(s)
    pending, log, rpos, mixed, reads = [], b'', 0, 0, False
    for op in case + [('read', 10 ** 6)]:
        if op[0] != 'read':
            s.seek(0, 2)
            write(w, op)
            log += encode(op)
            c.true(s.getvalue() == log, 'after writing %r the stream is ..%s, expected ..%s' % (op, s.getvalue()[-60:].hex(), log[-60:].hex()))
            pending.append(op)
            if reads:
                mixed += 1
        else:
            for it in pending[:op[1]]:
                s.seek(rpos)
                c.eq(read(r, it), expected(it), 'read of %r' % (it,))
                rpos += len(encode(it))
                c.eq(s.tell(), rpos, 'position after reading %r' % (it,))
                reads = True
            pending = pending[op[1]:]
            if not pending:
                early_reads(c, s, r)
    c.eq(rpos, len(log), 'all bytes read')
    c.nontrivial(mixed > 0)


@facet('C06', lambda: st.tuples(st.lists(st.tuples(gen.integers(0, 2), item()), min_size=2, max_size=14), st.lists(gen.integers(0, 2), min_size=40, max_size=40), st.booleans()), 1200, 'items on at least two streams', shards=4)
def several_streams(c, case):
    """several streams, each with its writers and readers, are used in turns"""
    ops, turns, second = case
    streams = [io.BytesIO() for _ in range(3)]
    writers = [(BinaryWriter(s), BinaryWriter(s)) for s in streams]
    logs, items = [b'', b'', b''], [[], [], []]
    for n, (i, it) in enumerate(ops):
        write(writers[i][n % 2 if second else 0], it)
        logs[i] += encode(it)
        items[i].append(it)
        for j in range(3):
            c.true(streams[j].getvalue() == logs[j], 'stream %d after writing %r to stream %d is ..%s, expected ..%s' % (j, it, i, streams[j].getvalue()[-60:].hex(), logs[j][-60:].hex()))
    for s in streams:
        s.seek(0)
    readers = [(BinaryReader(s), BinaryReader(s)) for s in streams]
    pos = [0, 0, 0]
    for n, i in enumerate(turns + [0] * 14 + [1] * 14 + [2] * 14):
        if items[i]:
            it = items[i].pop(0)
            c.eq(read(readers[i][n % 2 if second else 0], it), expected(it), 'read of %r from stream %d' % (it, i))
            pos[i] += len(encode(it))
            c.eq([s.tell() for s in streams], pos, 'positions after reading %r from stream %d' % (it, i))
    c.eq(pos, [len(x) for x in logs], 'ends of the streams')
    c.nontrivial(sum(bool(x) for x in logs) > 1)


# ---------------------------------------------------------------- C07


def cut_item():
    ints = st.sampled_from([k for k, _, _ in INT_KINDS]).flatmap(lambda k: st.tuples(st.just(k), gen.ints(*rng(k)), st.sampled_from(['<', '>', None])))
    return st.one_of(
        ints, ints,
        st.tuples(st.just('VarInt'), gen.ints(0xfd, 2 ** 63 - 1), st.booleans()),
        st.tuples(st.just('VarString'), gen.texts(1, 30), st.sampled_from([1, 1, 1, 30])),
        st.tuples(st.just('String'), gen.blobs(1, 255)),
        st.tuples(st.just('UInt160'), gen.fixed(20)),
        st.tuples(st.just('UInt256'), gen.fixed(32)),
        st.tuples(st.just('Deserialize'), st.sampled_from([20, 32]).flatmap(gen.fixed)),
        st.tuples(st.just('Fixed8'), gen.ints(-2 ** 63, 2 ** 63 - 1)),
        st.tuples(st.just('Bool'), st.booleans()),
        st.tuples(st.just('Char'), gen.integers(0, 255)),
        st.tuples(st.just('Float'), float_bits(32), st.sampled_from(['<', '>', None])),
        st.tuples(st.just('Double'), float_bits(64), st.sampled_from(['<', '>', None])),
        st.tuples(st.just('Safe'), gen.blobs(1, 300)),
        st.tuples(st.just('Point'), point_key(), st.booleans()))


def encode7(it):
    if it[0] == 'String':
        return bytes([len(it[1])]) + it[1]
    if it[0] in ('Deserialize', 'Safe'):
        return it[1]
    return encode(it)


def read7(r, it):
    if it[0] == 'String':
        return r.ReadString()
    if it[0] == 'Safe':
        return r.SafeReadBytes(len(it[1]))
    if it[0] == 'Deserialize':
        v = CLS[len(it[1])]()
        v.Deserialize(r)
        return bytes(v.ToArray())
    return read(r, it)


@facet('C07', lambda: st.tuples(cut_item(), gen.blobs(0, 40), st.lists(gen.integers(0, 2 ** 16), max_size=6)), 6000, 'item of at least two bytes', shards=6)
def truncated(c, case):
    it, pre, more = case
    enc = encode7(it)
    if it[0] == 'VarString' and not it[1]:
        return
    first = 1 if it[0] in ('VarString', 'VarInt') else 0   # an empty stream reads as the integer 0
    cuts = set(range(first, min(len(enc), 75))) | {len(enc) - 1} | {first + m % (len(enc) - first) for m in more if len(enc) > first}
    for cut in sorted(x for x in cuts if first <= x < len(enc)):
        s = io.BytesIO(pre + enc[:cut])
        s.seek(len(pre))
        c.raises(lambda: read7(BinaryReader(s), it), '%s cut after %d of %d bytes' % (it[0], cut, len(enc)))
    # and the whole is accepted
    s = io.BytesIO(pre + enc)
    s.seek(len(pre))
    got = read7(BinaryReader(s), it)
    c.eq(got, it[1] if it[0] in ('String', 'Safe', 'Deserialize') else expected(it), 'whole item')
    c.label(it[0])
    c.nontrivial(len(enc) > 1)


@facet('C07', lambda: st.tuples(st.sampled_from([20, 32]).flatmap(lambda n: st.tuples(gen.fixed(n), gen.fixed(n))), gen.integers(0, 31)), 1500, 'a truncated read into an existing value')
def failed_read_keeps_value(c, case):
    """a refused read into an existing 160/256-bit value leaves a value of the right width, equal to itself and usable"""
    (a, b), cut = case
    n = len(a)
    v = CLS[n](data=a)
    cut %= n
    c.raises(lambda: v.Deserialize(BinaryReader(io.BytesIO(b[:cut]))), 'Deserialize of %d of %d bytes' % (cut, n))
    c.eq(v.Size, n, 'Size after a refused read')
    c.eq(bytes(v.ToArray()), a, 'value after a refused read')
    c.nontrivial()


def declared():
    return st.tuples(st.sampled_from(['bytes', 'string', 'hashes', 'array']), st.one_of(gen.integers(0, 40), st.sampled_from([0xfc, 0xfd, 0xfe, 300, 0xffff, 0x10000, 2 ** 32 - 1, 2 ** 32, 2 ** 62])),
                     st.one_of(gen.integers(0, 60), st.sampled_from([0xfc, 0xfd, 0x100, 2 ** 31, 2 ** 40])), gen.blobs(0, 60), st.sampled_from([1, 2, 4, 8]))


@facet('C07', declared, 5000, 'declared length above the maximum or above the available data')
def declared_length(c, case):
    kind, n, mx, data, form = case
    enc = ref.varint(n)
    if form > 1 and n < 1 << 8 * form:
        enc = {2: b'\xfd', 4: b'\xfe', 8: b'\xff'}[form] + n.to_bytes(form, 'little')
    s = io.BytesIO(enc + data)
    r = BinaryReader(s)
    if kind == 'hashes' and n > 400:
        return   # the list reader has no maximum and documents no refusal of short lists
    if kind == 'bytes':
        if n > mx:
            c.raises(lambda: r.ReadVarBytes(max=mx), 'ReadVarBytes(max=%d) of declared %d' % (mx, n))
        else:
            c.eq(r.ReadVarBytes(max=mx), data[:n], 'ReadVarBytes')
    elif kind == 'string':
        if n > mx or n > len(data):
            c.raises(lambda: r.ReadVarString(max=mx), 'ReadVarString(max=%d) of declared %d, available %d' % (mx, n, len(data)))
        else:
            c.eq(r.ReadVarString(max=mx), data[:n], 'ReadVarString')
    elif kind == 'hashes':
        got = r.ReadHashes()
        flat = b''.join(bytes.fromhex(h)[::-1] for h in got)
        c.eq(flat, data[:32 * n], 'bytes returned by ReadHashes')
    else:
        if n > mx:
            c.raises(lambda: r.ReadSerializableArray('neocore.UInt160.UInt160', max=mx), 'ReadSerializableArray(max=%d) of declared %d' % (mx, n))
        else:
            got = r.ReadSerializableArray('neocore.UInt160.UInt160', max=mx)
            full = [data[i * 20:i * 20 + 20] for i in range(min(n, len(data) // 20))]
            c.eq([bytes(x.ToArray()) for x in got], full, 'items of a truncated array')
    c.label(kind)
    c.nontrivial(n > mx or n > len(data))


READS = [k for k, _, _ in INT_KINDS] + ['Bool', 'Char', 'Float', 'Double', 'Fixed8', 'UInt160', 'UInt256', 'String', 'VarString', 'VarBytes', 'VarInt', 'Point', 'Byte', 'Safe5', 'Fixed7']


@facet('C07', lambda: st.tuples(st.one_of(gen.blobs(0, 60), st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 0xfd, 0xfe, 0xff]), max_size=20).map(bytes)), st.lists(st.sampled_from(READS), min_size=1, max_size=10)),
       6000, 'at least two successful reads', shards=4)
def arbitrary_bytes(c, case):
    """any reads over any bytes: every successful result is the one the remaining bytes determine"""
    data, ops = case
    s = io.BytesIO(data)
    r = BinaryReader(s)
    ok = 0
    for op in ops:
        pos = s.tell()
        rest = data[pos:]
        try:
            if op == 'Point':
                got = ECDSA.Deserialize_Secp256r1(r)
            elif op == 'Safe5':
                got = r.SafeReadBytes(5)
            elif op == 'Fixed7':
                got = r.ReadFixedString(7)
            else:
                got = getattr(r, 'Read' + op)()
        except Exception:
            got = None
            # refused: was it really unreadable?
            if op in WIDTH:
                c.true(len(rest) < WIDTH[op][0], 'Read%s refused %s' % (op, rest.hex()))
            elif op in ('UInt160', 'UInt256'):
                c.true(len(rest) < {'UInt160': 20, 'UInt256': 32}[op], 'Read%s refused %s' % (op, rest.hex()))
            break
        ok += 1
        used = s.tell() - pos
        c.true(0 <= used <= len(rest), 'position after %s' % op)
        if op in WIDTH:
            w, sg = WIDTH[op]
            c.eq((got, used), (int.from_bytes(rest[:w], 'little', signed=sg), w), 'Read' + op)
            c.true(len(rest) >= w, 'Read%s of %d bytes' % (op, len(rest)))
        elif op in ('UInt160', 'UInt256'):
            w = {'UInt160': 20, 'UInt256': 32}[op]
            c.eq((bytes(got.ToArray()), used), (rest[:w], w), 'Read' + op)
            c.eq(got.Size, w, 'size')
        elif op == 'Fixed8':
            c.eq((got.value, used), (int.from_bytes(rest[:8], 'little', signed=True), 8), 'ReadFixed8')
        elif op == 'Safe5':
            c.eq((got, used), (rest[:5], 5), 'SafeReadBytes(5)')
            c.eq(len(got), 5, 'SafeReadBytes(5) length')
        elif op == 'Fixed7':
            c.eq(got, rest[:7].rstrip(b'\0'), 'ReadFixedString(7)')
        elif op == 'String':
            c.eq((got, used), (rest[1:1 + rest[0]], 1 + rest[0]), 'ReadString')
            c.eq(len(got), rest[0], 'ReadString length')
        elif op in ('VarInt', 'VarBytes', 'VarString'):
            if not rest:
                c.eq(got if op == 'VarInt' else len(got), 0, 'Read%s at the end' % op)
                continue
            h = {0xfd: 2, 0xfe: 4, 0xff: 8}.get(rest[0])
            v = rest[0] if h is None else int.from_bytes(rest[1:1 + h], 'little')
            hl = 1 if h is None else 1 + h
            c.true(len(rest) >= hl, 'Read%s of a cut prefix' % op)
            if op == 'VarInt':
                c.eq((got, used), (v, hl), 'ReadVarInt')
            else:
                c.eq(got, rest[hl:hl + v], 'Read' + op)
                if op == 'VarString':
                    c.eq(len(got), v, 'ReadVarString length')
        elif op == 'Point':
            if rest[:1] == b'\0':
                c.true(got.IsInfinity and used == 1, 'Point from a zero byte')
            else:
                P = ref.sec1_decode(rest[:33])
                c.true(len(rest) >= 33 and P not in (None, 'inf'), 'point accepted from %s' % rest[:33].hex())
                c.eq(((got.x.value, got.y.value), used), (P, 33), 'point')
        c.label(op)
    c.nontrivial(ok >= 2)
