"""C08, C09 160/256-bit values; C10, C11 BigInteger; C12, C13 Fixed8."""
import contextlib
import decimal
import io
import itertools
import operator
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

from pbt import findings, gen
from pbt.core import facet

from neocore import BigInteger as big_module
from neocore.BigInteger import BigInteger
from neocore.Fixed8 import Fixed8
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

CLS = {20: UInt160, 32: UInt256}


def uint_bytes():
    return st.sampled_from([20, 32]).flatmap(gen.fixed)


# ---------------------------------------------------------------- C08


@facet('C08', lambda: st.tuples(uint_bytes(), gen.integers(0, 2 ** 64 - 1), st.booleans()), 9000, 'value that is no palindrome of bytes', shards=4)
def uint_text(c, case):
    data, casemask, ba = case
    n = len(data)
    cls = CLS[n]
    v = cls(data=bytearray(data) if ba else data)
    text = data[::-1].hex()
    c.eq(v.ToString(), text, 'ToString')
    c.eq(str(v), text, 'str')
    c.eq(v.To0xString(), '0x' + text, 'To0xString')
    c.eq(v.ToString2(), data.hex(), 'ToString2')
    c.eq(v.ToBytes(), text.encode(), 'ToBytes')
    c.eq(bytes(v.ToArray()), data, 'ToArray')
    c.eq(v.Size, n, 'Size')
    c.eq(v.GetHashCode(), int.from_bytes(data[:4], 'little'), 'GetHashCode')
    mixed = ''.join(ch.upper() if casemask >> (i % 64) & 1 else ch for i, ch in enumerate(text))
    for t in (text, '0x' + text, mixed, '0x' + mixed, text.upper(), v.ToString(), v.To0xString()):
        w = cls.ParseString(t)
        c.true(type(w) is cls and bytes(w.ToArray()) == data and w == v and hash(w) == hash(v), 'ParseString(%r) gives %s' % (t, w.ToString()))
    c.nontrivial(data != data[::-1])
    c.label(str(8 * n))


def bad_text():
    def build(t):
        n, data, how, k, ch = t
        text = data[:n][::-1].hex()
        if how == 'short':
            return n, text[:-1 - k % (2 * n)]
        if how == 'long':
            return n, text + ('0123456789abcdef' * 3)[:1 + k % 24]
        if how == 'other':
            return n, 'ab' * (52 - n) if k % 2 else ('cd' * 64)[:2 * (52 - n)]
        if how == 'char':
            i = k % (2 * n)
            return n, text[:i] + ch + text[i + 1:]
        if how == 'blank':
            # blanks where a byte would be (inside, in front or behind), the number of characters being right
            i = 2 * (k % n)
            return n, text[:i] + 2 * ch + text[i + 2:] if k % 2 else text[:2 * n - 2] + 2 * ch
        if how == 'prefix':
            return n, ['0X', '0x0x', 'x0', '00x', '#'][k % 5] + text
        if how == 'shortprefix':
            return n, '0x' + text[2:]
        return n, ''
    return st.tuples(st.sampled_from([20, 32]), gen.fixed(32), st.sampled_from(['short', 'long', 'other', 'char', 'char', 'blank', 'prefix', 'shortprefix', 'empty']), gen.integers(0, 1000),
                     st.one_of(st.sampled_from('gGzxX -_+.\0é٣０'), st.sampled_from(' \t\n\r\v\f'), st.characters(exclude_categories=('Cs',)).filter(lambda x: x not in '0123456789abcdefABCDEF'))).map(build)


@facet('C08', lambda: st.tuples(bad_text(), st.booleans()), 5000, 'every case')
def uint_text_refused(c, case):
    (n, text), pre = case
    if pre and not text.startswith('0'):
        text = '0x' + text
    c.raises(lambda: CLS[n].ParseString(text), 'UInt%d.ParseString(%r)' % (8 * n, text))
    c.nontrivial()


@facet('C08', lambda: st.tuples(uint_bytes(), st.booleans(), gen.mangles()), 6000, 'text that has to be refused', shards=2)
def uint_text_mangled(c, case):
    """texts written in some other way: only the hexadecimal digits, with or without 0x, are a value"""
    data, prefix, how = case
    cls = CLS[len(data)]
    text = gen.mangle(('0x' if prefix else '') + data[::-1].hex(), how)
    body = text[2:] if text[:2] == '0x' else text
    if len(body) == 2 * len(data) and all(ch in '0123456789abcdefABCDEF' for ch in body):
        c.eq(bytes(cls.ParseString(text).ToArray()), bytes.fromhex(body)[::-1], '%s.ParseString(%r)' % (cls.__name__, text))
        c.label('valid')
    else:
        c.raises(lambda: cls.ParseString(text), '%s.ParseString(%r) (%s)' % (cls.__name__, text, how[0]))
        c.nontrivial()
        c.label(how[0])


@facet('C08', lambda: st.tuples(st.sampled_from([20, 32]), gen.blobs(0, 70), st.sampled_from(['bytes', 'bytearray', 'str', 'list', 'zero'])), 2500, 'data of a wrong length or type')
def uint_data(c, case):
    n, data, kind = case
    cls = CLS[n]
    if kind == 'zero':
        v = cls()
        c.true(bytes(v.ToArray()) == bytes(n) and v.ToString() == '00' * n and v == cls(data=bytes(n)) and hash(v) == hash(cls(data=bytes(n))) and v.Size == n, 'value without data')
        c.true(cls() == cls(data=None), 'zero values')
        return
    arg = {'bytes': data, 'bytearray': bytearray(data), 'str': data.decode('latin-1'), 'list': list(data)}[kind]
    if len(data) == n and kind in ('bytes', 'bytearray'):
        c.eq(bytes(cls(data=arg).ToArray()), data, 'value')
    else:
        c.raises(lambda: cls(data=arg), 'UInt%d of %s of %d' % (8 * n, kind, len(data)))
        c.nontrivial()


# ---------------------------------------------------------------- C09


def pair():
    """two values of one width: equal, differing in few bytes, or unrelated"""
    def near(n):
        return st.tuples(gen.fixed(n), st.lists(st.tuples(gen.integers(0, n - 1), gen.integers(0, 255)), max_size=2)).map(lambda t: (t[0], _patch(*t)))
    return st.sampled_from([20, 32]).flatmap(lambda n: st.one_of(near(n), near(n), st.tuples(gen.fixed(n), gen.fixed(n))))


def _patch(b, ch):
    b = bytearray(b)
    for i, v in ch:
        b[i] = v
    return bytes(b)


def le(b):
    return int.from_bytes(b, 'little')


OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


@facet('C09', pair, 12000, 'values that differ in at most two bytes', shards=4)
def uint_order(c, case):
    a, b = case
    cls = CLS[len(a)]
    x, y = cls(data=a), cls(data=b)
    m, n = le(a), le(b)
    for name, op in OPS.items():
        got = op(x, y)
        c.true(got is True or got is False, '%s gives %r' % (name, got))
        c.eq(got, op(m, n), '%s %s %s' % (x, name, y))
    # only the sign means something
    c.eq((x.CompareTo(y) > 0) - (x.CompareTo(y) < 0), (m > n) - (m < n), 'CompareTo(%s, %s)' % (x, y))
    c.eq((y.CompareTo(x) > 0) - (y.CompareTo(x) < 0), (m < n) - (m > n), 'CompareTo(%s, %s)' % (y, x))
    if a == b:
        c.eq(hash(x), hash(y), 'hash of equal values')
        c.true(y in {x}, 'set membership of an equal value')
    else:
        c.true(y not in {x}, 'set membership of another value')
    c.eq({x: 1}.get(y), 1 if a == b else None, 'dictionary lookup')
    z = cls()
    z.Deserialize(BinaryReader(io.BytesIO(b)))
    c.eq(z == x, a == b, 'equality of a value read from a stream')
    c.eq(hash(z), hash(y), 'hash of a value read from a stream')
    for name, op in OPS.items():
        c.true(op(x, x) is op(0, 0), '%s %s itself' % (x, name))
    c.eq(x.CompareTo(x), 0, 'CompareTo(itself)')
    c.true((bytes(x.ToArray()), bytes(y.ToArray())) == (a, b), 'comparison changed a value')
    diff = sum(p != q for p, q in zip(a, b))
    c.nontrivial(diff <= 2)
    c.label('differ in %s bytes' % (diff if diff < 3 else 'more'))


@facet('C09', lambda: st.sampled_from([20, 32]).flatmap(lambda n: st.tuples(gen.fixed(n), st.lists(st.tuples(gen.integers(0, n - 1), gen.integers(0, 255)), max_size=9))), 2500, 'at least three different values')
def uint_sort(c, case):
    base, changes = case
    vals = [base] + [_patch(base, [ch]) for ch in changes]
    cls = CLS[len(base)]
    got = [le(bytes(v.ToArray())) for v in sorted(cls(data=v) for v in vals)]
    c.eq(got, sorted(le(v) for v in vals), 'sorted')
    c.eq(le(bytes(max(cls(data=v) for v in vals).ToArray())), max(le(v) for v in vals), 'max')
    c.eq(le(bytes(min(cls(data=v) for v in vals).ToArray())), min(le(v) for v in vals), 'min')
    c.eq(len({cls(data=v) for v in vals}), len(set(vals)), 'number of distinct values')
    c.nontrivial(len(set(vals)) >= 3)


@facet('C09', lambda: st.sampled_from([20, 32]).flatmap(lambda n: st.tuples(gen.fixed(n), st.lists(st.tuples(gen.integers(0, n - 1), gen.integers(0, 255)), max_size=3), st.sampled_from(['data', 'stream', 'parse']))), 2500, 'buffer that really changes')
def uint_buffer(c, case):
    """a value stays what it is when the buffer it was made from is used for something else"""
    b, changes, how = case
    cls = CLS[len(b)]
    buf = bytearray(b)
    if how == 'data':
        v = cls(data=buf)
    elif how == 'stream':
        v = cls()
        v.Deserialize(BinaryReader(io.BytesIO(buf)))
    else:
        v = cls.ParseString(bytes(buf[::-1]).hex())
    w = cls(data=bytes(b))
    table = {v: 'x'}
    for i, x in changes:
        buf[i] = x
    buf.reverse()
    c.eq(bytes(v.ToArray()), b, 'bytes after the buffer changed')
    c.true(v == w and hash(v) == hash(w) and table.get(w) == 'x' and v.CompareTo(w) == 0, 'a value made from a buffer changes with it')
    c.eq(v.ToString(), b[::-1].hex(), 'text after the buffer changed')
    c.nontrivial(bytes(buf) != b)


@facet('C09', lambda: st.tuples(gen.fixed(20), gen.fixed(32), st.booleans(), st.one_of(st.none(), gen.blobs(0, 33), gen.texts(0, 5), st.integers(), st.lists(st.integers(), max_size=2))), 2000, 'every case')
def uint_mixed(c, case):
    a, b, embed, other = case
    if embed:
        b = a + b[:12]
    x, y = UInt160(data=a), UInt256(data=b)
    c.true(not (x == y) and not (y == x) and x != y and y != x, 'values of different widths are equal')
    for name in ('<', '<=', '>', '>='):
        c.raises(lambda: OPS[name](x, y), '160 %s 256 bit' % name)
        c.raises(lambda: OPS[name](y, x), '256 %s 160 bit' % name)
    c.raises(lambda: x.CompareTo(y), 'CompareTo of different widths')
    c.raises(lambda: y.CompareTo(x), 'CompareTo of different widths')
    for o in (other, a, bytearray(a), a.hex(), None):
        c.true(not (x == o) and x != o, 'equal to %r' % (o,))
        c.raises(lambda: x.CompareTo(o), 'CompareTo(%r)' % (o,))
        for name in ('<', '<=', '>', '>='):
            c.raises(lambda: OPS[name](x, o), 'UInt160 %s %r' % (name, o))
    c.nontrivial()


# ---------------------------------------------------------------- C10


def bigs(bits=520):
    return gen.ints(-2 ** bits, 2 ** bits)


def byte_edge():
    return st.tuples(gen.integers(0, 70), st.sampled_from([-1, 1]), st.sampled_from([7, 8]), gen.integers(-2, 2)).map(lambda t: t[1] * (1 << max(0, 8 * t[0] + t[2] - 8 * 0)) + t[3])


def minlen_signed(v):
    n = 1
    while not -(1 << 8 * n - 1) <= v < 1 << 8 * n - 1:
        n += 1
    return n


@facet('C10', lambda: st.one_of(bigs(), byte_edge()), 12000, 'negative or of at least 8 bits', shards=4,
       corpus=lambda: list(range(-300, 70000, 7)) + [s * (1 << k) + d for k in range(0, 530) for s in (1, -1) for d in (-1, 0, 1)])
def big_bytes(c, v):
    x = BigInteger(v)
    for b in (x.ToByteArray(), x.ToByteArray(signed=True), x.ToByteArray(True)):
        c.true(isinstance(b, (bytes, bytearray)), 'type %r' % b)
        c.eq(int.from_bytes(b, 'little', signed=True), v, 'ToByteArray() of %d = %s' % (v, bytes(b).hex()))
        back = BigInteger.FromBytes(b, signed=True)
        c.eq(back, v, 'FromBytes(ToByteArray(), signed)')
        c.true(type(back) is BigInteger, 'type of FromBytes')
    if v >= 0:
        b = x.ToByteArray()
        c.eq(len(b), minlen_signed(v), 'length of ToByteArray() of %d' % v)
        u = x.ToByteArray(signed=False)
        c.eq(bytes(u), v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little'), 'ToByteArray(signed=False)')
        c.eq(BigInteger.FromBytes(u), v, 'FromBytes(ToByteArray(signed=False))')
        c.eq(BigInteger.FromBytes(u, signed=False), v, 'FromBytes(ToByteArray(signed=False))')
    if v == 0:
        c.eq(bytes(x.ToByteArray()), b'\0', 'zero')
    c.eq(int(x), v, 'value after conversion')
    c.nontrivial(v < 0 or v > 127)
    c.label('negative' if v < 0 else 'non-negative')


@facet('C10', lambda: st.tuples(gen.blobs(0, 70), st.sampled_from(['bytes', 'bytearray'])), 6000, 'at least two bytes')
def big_from_bytes(c, case):
    b, kind = case
    arg = b if kind == 'bytes' else bytearray(b)
    for signed in (True, False, None):
        x = BigInteger.FromBytes(arg) if signed is None else BigInteger.FromBytes(arg, signed=signed)
        c.eq(x, int.from_bytes(b, 'little', signed=bool(signed)), 'FromBytes(%s, signed=%r)' % (b.hex(), signed))
        c.true(type(x) is BigInteger, 'type %r' % type(x))
        if signed is not None and b and (signed or x >= 0):
            out = x.ToByteArray(signed=signed)
            c.eq(int.from_bytes(out, 'little', signed=signed), int(x), 'bytes of a number read from bytes')
    c.eq(arg, b, 'argument')
    c.nontrivial(len(b) > 1)


# ---------------------------------------------------------------- C11

BIN = {'add': (operator.add, lambda a, b: a + b), 'sub': (operator.sub, lambda a, b: a - b), 'mul': (operator.mul, lambda a, b: a * b),
       'floordiv': (operator.floordiv, lambda a, b: a // b), 'truediv': (operator.truediv, lambda a, b: a // b), 'mod': (operator.mod, lambda a, b: a % b)}


def hexed(v):
    return '%d' % v if abs(v) < 1 << 400 else '%s0x%s...%s (%d bits)' % ('-' if v < 0 else '', hex(abs(v))[2:40], hex(abs(v))[-40:], v.bit_length())


def is_big(c, got, exp, what):
    c.true(type(got) is BigInteger, '%s is a %s' % (what, type(got).__name__))
    if int(got) != exp:  # (numbers may be too long for decimal notation)
        c.fail('%s: got %s, expected %s' % (what, hexed(int(got)), hexed(exp)))


def others(a, b):
    """values of other types near the numbers: fractions, decimals, floats, truth values, texts, nothing"""
    out = [Fraction(2 * a + 1, 2), Fraction(a), Fraction(a, 3), decimal.Decimal(a), decimal.Decimal(a).scaleb(-1), None, str(a), bool(b % 2), (a,), complex(b % 3)]
    if abs(a) < 2 ** 900:
        out += [float(a), a + 0.5, float(b) if abs(b) < 2 ** 900 else float('inf'), float('nan'), float('-inf')]
    return out


@facet('C11', lambda: st.tuples(gen.pairs(bigs(), st.one_of(bigs(), bigs(), gen.integers(-12, 12))), st.sampled_from(['big', 'int'])), 12000, 'both operands outside -1..1', shards=4)
def big_binary(c, case):
    (a, b), kind = case
    x, y = BigInteger(a), (BigInteger(b) if kind == 'big' else b)
    for name, (op, ref) in BIN.items():
        what = '%d %s %d' % (a, name, b)
        if b == 0 and name in ('floordiv', 'truediv', 'mod'):
            c.raises(lambda: op(x, y), what, ZeroDivisionError)
        else:
            is_big(c, op(x, y), ref(a, b), what)
    for name, op in OPS.items():
        c.eq(op(x, y), op(a, b), '%d %s %d' % (a, name, b))
    c.eq(x.Equals(y), a == b, 'Equals')
    for name, op in OPS.items():
        c.eq(op(x, x), op(0, 0), '%d %s itself' % (a, name))
    for z in others(a, b):
        for name in ('==', '!=', '<', '<=', '>', '>='):
            op = OPS[name]
            try:
                exp = op(a, z)
            except (TypeError, ValueError) as e:
                c.raises(lambda: op(x, z), '%d %s %r' % (a, name, z), type(e))
                continue
            c.eq(op(x, z), exp, '%d %s %r' % (a, name, z))
            c.eq(op(z, x), op(z, a), '%r %s %d' % (z, name, a))
    is_big(c, x + x, a + a, '%d + itself' % a)
    is_big(c, x - x, 0, '%d - itself' % a)
    is_big(c, x * x, a * a, '%d * itself' % a)
    c.true(int(x) == a and int(y) == b, 'an operation changed an operand')
    c.nontrivial(abs(a) > 1 and abs(b) > 1)
    c.label(('-' if a < 0 else '+') + ('-' if b < 0 else '+'))


@facet('C11', lambda: st.tuples(bigs(), st.one_of(gen.integers(0, 80), gen.integers(0, 600)), st.sampled_from(['big', 'int'])), 6000, 'number outside -1..1', shards=2)
def big_unary(c, case):
    a, k, kind = case
    x = BigInteger(a)
    n = BigInteger(k) if kind == 'big' else k
    is_big(c, -x, -a, '-%d' % a)
    is_big(c, abs(x), abs(a), 'abs(%d)' % a)
    is_big(c, x << n, a << k, '%d << %d' % (a, k))
    is_big(c, x >> n, a >> k, '%d >> %d' % (a, k))
    is_big(c, x + big_module.ZERO, a, '%d + ZERO' % a)
    is_big(c, x * big_module.ONE, a, '%d * ONE' % a)
    is_big(c, x - big_module.ONE, a - 1, '%d - ONE' % a)
    c.eq(x.Sign, (a > 0) - (a < 0), 'Sign of %d' % a)
    c.eq(str(x), str(a), 'str')
    c.eq(hash(x), hash(a), 'hash')
    c.eq(bool(x), bool(a), 'bool')
    c.true(x == a and a == x and x in {a}, 'equality with the integer')
    if k:
        c.raises(lambda: x << -k, '%d << %d' % (a, -k))
        c.raises(lambda: x >> -k, '%d >> %d' % (a, -k))
    c.nontrivial(abs(a) > 1)


def huge():
    """(sign, bits, pattern, offset): numbers of up to some ten thousand bits, written compactly"""
    return st.tuples(st.sampled_from([1, -1]), st.one_of(st.sampled_from([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 8192, 16384]), gen.integers(1, 3000), gen.integers(1, 20000)),
                     st.one_of(st.just(0), gen.integers(0, 2 ** 40)), gen.integers(-3, 3))


def expand_huge(t):
    sign, bits, pat, d = t
    v = 1 << bits
    if pat:
        w = pat.bit_length()
        v |= ((((1 << (bits // w * w)) - 1) // ((1 << w) - 1)) * pat) if bits >= w else 0
    return sign * (v + d)


@facet('C11', lambda: st.tuples(huge(), huge(), st.one_of(gen.integers(0, 20000), st.sampled_from([63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 65535, 65536])), st.sampled_from(['big', 'int'])), 900,
       'both operands of more than 600 bits', shards=4)
def big_huge(c, case):
    """the same for numbers and shifts far beyond the usual sizes"""
    s, t, k, kind = case
    a, b = expand_huge(s), expand_huge(t)
    x, y = BigInteger(a), (BigInteger(b) if kind == 'big' else b)
    for name, (op, ref) in BIN.items():
        if b or name not in ('floordiv', 'truediv', 'mod'):
            is_big(c, op(x, y), ref(a, b), '%s of numbers of %d and %d bits' % (name, a.bit_length(), b.bit_length()))
    for name, op in OPS.items():
        c.eq(op(x, y), op(a, b), '%s of numbers of %d and %d bits' % (name, a.bit_length(), b.bit_length()))
    n = BigInteger(k) if kind == 'big' else k
    is_big(c, x << n, a << k, '<< %d' % k)
    is_big(c, x >> n, a >> k, '>> %d' % k)
    is_big(c, -x, -a, 'negation')
    is_big(c, abs(x), abs(a), 'abs')
    c.eq(x.Sign, (a > 0) - (a < 0), 'Sign')
    c.eq(hash(x), hash(a), 'hash')
    raw = x.ToByteArray()
    c.eq(int.from_bytes(raw, 'little', signed=True), a, 'ToByteArray')
    is_big(c, BigInteger.FromBytes(raw, signed=True), a, 'FromBytes(ToByteArray())')
    c.nontrivial(abs(a).bit_length() > 600 and abs(b).bit_length() > 600)


@facet('C12', lambda: st.tuples(huge(), huge(), st.booleans(), gen.integers(-3, 3)), 900, 'both amounts of more than 600 bits', shards=4)
def fixed_huge(c, case):
    """amounts far beyond the usual sizes, related or not, whole or not"""
    s, t, near, d = case
    a = expand_huge(s)
    b = a + d if near else expand_huge(t)
    for a, b in ((a, b), (a // D * D, b), (a, b % a if a else b)):
        x, y = Fixed8(a), Fixed8(b)
        what = ' with amounts of %d and %d bits' % (a.bit_length(), b.bit_length())
        for name, got, exp in (('+', lambda: x + y, a + b), ('-', lambda: x - y, a - b), ('*', lambda: x * y, a * b), ('neg', lambda: -x, -a), ('Ceil', x.Ceil, -(-a // D) * D), ('Floor', x.Floor, a // D * D)) + (
                (('/', lambda: x / y, trunc_div(a, b)), ('//', lambda: x // y, a // b), ('%', lambda: x % y, a % b)) if b else ()):
            got = got()
            c.true(isinstance(got, Fixed8) and type(got.value) is int and got.value == exp, name + what)
        c.true(x.ToInt() == trunc_div(a, D), 'ToInt' + what)
        for name, op in OPS.items():
            c.true(op(x, y) == op(a, b) and op(x, x) == op(0, 0), name + what)
        for name, exp in (('iadd', a + b), ('isub', a - b), ('imul', a * b)):
            z = getattr(operator, name)(x, y)
            c.true(z.value == exp and x.value == a and y.value == b, name + what)
        c.true(x.GetData() == a, 'GetData' + what)
    c.nontrivial(abs(a).bit_length() > 600 and abs(b).bit_length() > 600)


@facet('C10', lambda: st.tuples(st.one_of(gen.big_blob((255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537)), gen.large_blob(200000)), gen.blobs(0, 3), st.sampled_from([bytes, bytearray, memoryview])), 400, 'more than 1024 bytes', seq=0)
def long_bytes(c, case):
    """byte strings of many thousand bytes"""
    t, end, form = case
    b = gen.expand(t) + end
    for signed in (True, False):
        v = int.from_bytes(b, 'little', signed=signed)
        c.true(BigInteger.FromBytes(form(b), signed=signed) == v, 'FromBytes of %d bytes, signed=%r' % (len(b), signed))
        x = BigInteger(v)
        out = bytes(x.ToByteArray(signed=signed))
        c.true(int.from_bytes(out, 'little', signed=signed) == v, 'ToByteArray(signed=%r) of a number of %d bits' % (signed, v.bit_length()))
        if v >= 0:
            c.eq(len(out), v.bit_length() // 8 + 1 if signed else max(1, (v.bit_length() + 7) // 8), 'length of the bytes')
    c.nontrivial(len(b) > 1024)


@facet('C10', lambda: huge(), 800, 'negative or of at least 600 bits')
def huge_bytes(c, case):
    v = expand_huge(case)
    x = BigInteger(v)
    for b in (x.ToByteArray(), x.ToByteArray(signed=True)):
        c.true(int.from_bytes(b, 'little', signed=True) == v, 'ToByteArray() of a number of %d bits' % v.bit_length())
        c.true(BigInteger.FromBytes(b, signed=True) == v and BigInteger.FromBytes(bytearray(b), signed=True) == v, 'FromBytes(ToByteArray(), signed)')
    if v >= 0:
        c.eq(len(x.ToByteArray()), v.bit_length() // 8 + 1, 'length of ToByteArray()')
        u = x.ToByteArray(signed=False)
        c.eq(bytes(u), v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little'), 'ToByteArray(signed=False)')
        c.true(BigInteger.FromBytes(u) == v, 'FromBytes(ToByteArray(signed=False))')
    c.nontrivial(v < 0 or v.bit_length() > 600)


@facet('C11', lambda: st.tuples(bigs(130), st.lists(st.tuples(st.sampled_from(sorted(BIN) + ['neg', 'abs', 'shl', 'shr', 'bytes', 'i' + 'add', 'isub', 'imul']), bigs(90)), max_size=14)), 3500, 'chain of at least three operations')
def big_chain(c, case):
    a, ops = case
    x = BigInteger(a)
    v = a
    for name, b in ops:
        if name == 'neg':
            x, v = -x, -v
        elif name == 'abs':
            x, v = abs(x), abs(v)
        elif name == 'shl':
            x, v = x << (abs(b) % 40), v << (abs(b) % 40)
        elif name == 'shr':
            x, v = x >> (abs(b) % 200), v >> (abs(b) % 200)
        elif name == 'bytes':
            x = BigInteger.FromBytes(x.ToByteArray(), signed=True)
        elif name == 'iadd':
            x += BigInteger(b)
            v += b
        elif name == 'isub':
            x -= b
            v -= b
        elif name == 'imul':
            x *= b
            v *= b
        else:
            if b == 0:
                continue
            x, v = BIN[name][0](x, BigInteger(b)), BIN[name][1](v, b)
        is_big(c, x, v, 'after %s %d' % (name, b))
    c.nontrivial(len(ops) >= 3)


# ---------------------------------------------------------------- C12

D = 10 ** 8


def amounts(bits=63):
    """stored units; whole and nearly whole amounts have weight"""
    return st.one_of(gen.ints(-2 ** bits, 2 ** bits - 1), st.tuples(gen.integers(-10 ** 10, 10 ** 10), st.sampled_from([0, 1, -1, D // 2, D // 2 - 1, D // 2 + 1, 2, 99999999])).map(lambda t: t[0] * D + t[1]))


def wide_amounts():
    """amounts of every magnitude: beyond 128, 256 and 1024 bits too, some of them whole or nearly whole"""
    wide = st.one_of(gen.ints(-2 ** 300, 2 ** 300), gen.ints(-2 ** 2000, 2 ** 2000))
    return gen.choose(amounts(), amounts(100), wide, st.tuples(wide, st.sampled_from([0, 1, -1, D // 2, 99999999])).map(lambda t: t[0] * D + t[1]))


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


@facet('C12', lambda: gen.pairs(wide_amounts(), gen.choose(amounts(), wide_amounts(), gen.integers(-9, 9))), 16000, 'amounts that are negative, fractional or beyond 2^53', shards=4)
def fixed_binary(c, case):
    a, b = case
    x, y = Fixed8(a), Fixed8(b)

    def same(got, exp, what):
        c.true(isinstance(got, Fixed8), '%s is a %s' % (what, type(got).__name__))
        c.true(type(got.value) is int and got.value == exp, '%s: got %r, expected %d' % (what, got.value, exp))
    same(x + y, a + b, '%d + %d' % (a, b))
    same(x - y, a - b, '%d - %d' % (a, b))
    same(x * y, a * b, '%d * %d' % (a, b))
    same(-x, -a, '-%d' % a)
    if b:
        same(x / y, trunc_div(a, b), '%d / %d' % (a, b))
        same(x // y, a // b, '%d // %d' % (a, b))
        same(x % y, a % b, '%d %% %d' % (a, b))
    else:
        for name, op in (('/', operator.truediv), ('//', operator.floordiv), ('%', operator.mod)):
            c.raises(lambda: op(x, y), '%d %s 0' % (a, name))
    for name, op in OPS.items():
        c.eq(op(x, y), op(a, b), '%d %s %d' % (a, name, b))
        c.eq(op(x, x), op(0, 0), '%d %s itself' % (a, name))
    same(x + x, a + a, '%d + itself' % a)
    same(x - x, 0, '%d - itself' % a)
    same(x * x, a * a, '%d * itself' % a)
    c.true(x.value == a and y.value == b, 'an operation changed an operand')
    for name, exp in (('iadd', a + b), ('isub', a - b), ('imul', a * b), ('itruediv', trunc_div(a, b) if b else None), ('imod', a % b if b else None), ('ifloordiv', a // b if b else None)):
        if exp is None:
            continue
        z = x
        z = getattr(operator, name)(z, y)
        same(z, exp, '%s(%d, %d)' % (name, a, b))
        c.true(x.value == a and y.value == b, '%s changed another reference to an operand' % name)
    for name, exp in (('iadd', a + a), ('isub', 0), ('imul', a * a), ('itruediv', 1 if a else None), ('imod', 0 if a else None), ('ifloordiv', 1 if a else None)):
        if exp is None:
            continue
        z = x
        z = getattr(operator, name)(z, z)
        same(z, exp, '%s(%d, itself)' % (name, a))
        c.true(x.value == a, '%s with itself changed another reference to the operand' % name)
    c.eq(x.GetData(), a, 'GetData')
    c.nontrivial(a < 0 or b < 0 or a % D != 0 or abs(a) > 2 ** 53)


@facet('C12', lambda: st.tuples(wide_amounts(), gen.integers(0, 1)), 12000, 'amount that is negative, fractional or beyond 2^53', shards=4)
def fixed_rounding(c, case):
    a, _ = case
    x = Fixed8(a)
    up, down = x.Ceil(), x.Floor()
    c.true(isinstance(up, Fixed8) and isinstance(down, Fixed8), 'Ceil/Floor type')
    c.eq(up.value, -(-a // D) * D, 'Ceil of %d' % a)
    c.eq(down.value, a // D * D, 'Floor of %d' % a)
    c.true(type(up.value) is int and type(down.value) is int, 'units of Ceil/Floor are integers')
    t = x.ToInt()
    c.true(type(t) is int, 'ToInt type')
    c.eq(t, trunc_div(a, D), 'ToInt of %d' % a)
    c.eq(x.value, a, 'amount after rounding')
    c.eq(x.Size(), 8, 'Size')
    c.nontrivial(a < 0 or a % D != 0 or a > 2 ** 53)
    c.label('whole' if a % D == 0 else 'fraction')


@facet('C12', lambda: st.one_of(st.tuples(gen.integers(-1000, 1000), gen.integers(0, 12), st.one_of(st.none(), gen.integers(1, 10 ** 6))),
                               st.tuples(gen.integers(-2 ** 70, 2 ** 70), gen.integers(0, 5), st.none()), st.tuples(gen.integers(-12, 12), gen.integers(0, 1100), st.none()),
                               st.tuples(st.sampled_from([-1, 0, 1]), gen.ints(0, 2 ** 300), st.none()), st.tuples(gen.ints(-2 ** 70, 2 ** 70), gen.ints(0, 2 ** 70), gen.ints(1, 2 ** 70)),
                               st.tuples(gen.ints(-2 ** 300, 2 ** 300), gen.ints(0, 2 ** 300), gen.ints(1, 2 ** 300)), st.tuples(gen.ints(-2 ** 300, 2 ** 300), gen.integers(0, 6), st.none())), 5000, 'power of at least 2')
def fixed_pow(c, case):
    a, k, m = case
    got = Fixed8(a) ** Fixed8(k) if m is None else pow(Fixed8(a), Fixed8(k), m)
    c.eq(got.value, pow(a, k, m), 'pow(%d, %d, %r)' % (a, k, m))
    if m is None:
        x = Fixed8(a)
        x **= Fixed8(k)
        c.eq(x.value, pow(a, k), '%d **= %d' % (a, k))
        x = y = Fixed8(a)
        p = q = Fixed8(k)
        x **= p
        c.eq((x.value, y.value, p.value), (pow(a, k), a, k), '%d **= %d, the same amount under another name, the exponent' % (a, k))
        if 0 <= k < 40:
            p **= p
            c.eq((p.value, q.value), (pow(k, k), k), '%d **= itself, the same amount under another name' % k)
    c.eq((Fixed8.FD().value, Fixed8.One().value, Fixed8.Satoshi().value, Fixed8.NegativeSatoshi().value, Fixed8.Zero().value), (D, D, 1, -1, 0), 'constants')
    c.nontrivial(k > 1)


CONST = {'Zero': 0, 'One': D, 'FD': D, 'Satoshi': 1, 'NegativeSatoshi': -1}


@facet('C12', lambda: st.tuples(st.sampled_from(sorted(CONST)), st.lists(st.tuples(st.sampled_from(['iadd', 'isub', 'imul', 'imod', 'itruediv', 'ifloordiv', 'add', 'Ceil', 'Floor', 'neg']), st.one_of(amounts(), st.sampled_from(sorted(CONST)))), min_size=1, max_size=5)), 1500,
       'history with an operation that changes the amount')
def fixed_constants(c, case):
    """running totals that start from one of the constants; the constants keep their values"""
    name, ops = case
    x = getattr(Fixed8, name)()
    v = CONST[name]
    c.eq(x.value, v, name)
    kept = [(x, v, name)]
    for op, b in ops:
        if isinstance(b, str):
            y, b = getattr(Fixed8, b)(), CONST[b]
        else:
            y = Fixed8(b)
        kept.append((y, b, 'an operand'))
        if op in ('Ceil', 'Floor'):
            x, v = getattr(x, op)(), (-(-v // D) * D if op == 'Ceil' else v // D * D)
        elif op == 'neg':
            x, v = -x, -v
        else:
            if op in ('imod', 'itruediv', 'ifloordiv') and not b:
                continue
            v = {'iadd': v + b, 'add': v + b, 'isub': v - b, 'imul': v * b, 'imod': v % b if b else 0, 'itruediv': trunc_div(v, b) if b else 0, 'ifloordiv': v // b if b else 0}[op]
            x = getattr(operator, op)(x, y)
        c.eq(x.value, v, 'after %s' % op)
        kept.append((x, v, 'an earlier amount'))
        c.eq({k: getattr(Fixed8, k)().value for k in CONST}, CONST, 'the constants')
    for o, exp, what in kept:
        c.eq(o.value, exp, what)
    c.eq(Fixed8.D, D, 'units of one')
    c.nontrivial(v != CONST[name])


@facet('C12', lambda: st.tuples(wide_amounts(), st.lists(st.tuples(st.sampled_from(['add', 'sub', 'neg', 'iadd', 'isub', 'ceil', 'floor', 'fail']), wide_amounts()), max_size=12)), 4000, 'history of at least three operations')
def fixed_chain(c, case):
    a, ops = case
    x, v = Fixed8(a), a
    kept = [(x, a)]
    for name, b in ops:
        y = Fixed8(b)
        if name == 'add':
            x, v = x + y, v + b
        elif name == 'sub':
            x, v = x - y, v - b
        elif name == 'neg':
            x, v = -x, -v
        elif name == 'fail':
            # a division by nothing, and the same operations right after it
            for op in (operator.truediv, operator.floordiv, operator.mod, operator.itruediv, operator.imod):
                c.raises(lambda: op(x, Fixed8(0)), 'division of %d by 0' % v)
                if b:
                    c.eq(op(x, y).value, {'truediv': trunc_div(v, b), 'itruediv': trunc_div(v, b), 'floordiv': v // b}.get(op.__name__, v % b), '%s(%d, %d) after a failed one' % (op.__name__, v, b))
                    c.eq(op(Fixed8(b), Fixed8(v)).value if v else 0, {'truediv': trunc_div(b, v), 'itruediv': trunc_div(b, v), 'floordiv': b // v}.get(op.__name__, b % v) if v else 0, '%s(%d, %d) after the opposite' % (op.__name__, b, v))
        elif name == 'iadd':
            x += y
            v += b
        elif name == 'isub':
            x -= y
            v -= b
        elif name == 'ceil':
            x, v = x.Ceil(), -(-v // D) * D
        else:
            x, v = x.Floor(), v // D * D
        kept += [(x, v), (y, b)]
        c.eq(x.value, v, 'after %s %d' % (name, b))
    for o, exp in kept:
        c.eq(o.value, exp, 'an earlier amount')
    c.nontrivial(len(ops) >= 3)


# ---------------------------------------------------------------- C13


def dec(u):
    """exact decimal text of u units, without trailing zeros"""
    s = '%s%d.%08d' % ('-' if u < 0 else '', abs(u) // D, abs(u) % D)
    s = s.rstrip('0').rstrip('.')
    return s


def decimal_text():
    """text of a number"""
    def build(t):
        neg, digits, point, exp, style = t
        i = min(point, len(digits))
        body = digits[:i] + ('.' + digits[i:] if style & 1 or i < len(digits) else '')
        if body.startswith('.') and style & 2:
            body = '0' + body
        if body in ('', '.'):
            body = '0'
        if exp is not None:
            body += ('e' if style & 4 else 'E') + ('+' if exp >= 0 and style & 8 else '') + str(exp)
        sign = '-' if neg else ('+' if style & 16 else '')
        return (' ' if style & 32 else '') + sign + body + ('\n' if style & 32 else '')
    return st.tuples(st.booleans(), st.one_of(st.text('0123456789', min_size=1, max_size=28), st.text('09', min_size=1, max_size=20), st.text('5', min_size=1, max_size=19), st.text('0123456789', min_size=25, max_size=60),
                                                   st.tuples(st.text('0123456789', max_size=20), st.sampled_from('90'), st.one_of(gen.integers(15, 60), gen.integers(60, 270))).map(lambda t: t[0] + t[1] * t[2])), st.one_of(gen.integers(0, 9), gen.integers(0, 28), gen.integers(0, 300)),
                     st.one_of(st.none(), st.none(), gen.integers(-12, 12), gen.integers(-300, 12)), st.one_of(st.just(0), st.just(0), gen.integers(0, 63))).map(build)


def exact_units(text):
    """truncated toward zero, computed with rationals"""
    f = Fraction(text.strip()) * D
    n = abs(f.numerator) // f.denominator
    return -n if f < 0 else n


def contexts():
    """settings of the decimal module an application may have made"""
    return st.one_of(st.none(), st.none(), st.tuples(st.sampled_from([28, 1, 3, 6, 9, 17, 50]), st.sampled_from([decimal.ROUND_HALF_EVEN, decimal.ROUND_UP, decimal.ROUND_FLOOR, decimal.ROUND_CEILING, decimal.ROUND_DOWN])))


@contextlib.contextmanager
def using(ctx):
    with decimal.localcontext() as d:
        if ctx:
            d.prec, d.rounding = ctx
        yield


@facet('C13', lambda: st.tuples(decimal_text(), st.booleans(), contexts()), 12000, 'at least three significant digits and a fraction', shards=4)
def parse_text(c, case):
    with using(case[2]):
        parse_text_in(c, case[:2])


def parse_text_in(c, case):
    text, req = case
    exp = exact_units(text)
    neg = Fraction(text.strip()) < 0
    for value in (text, Decimal(text.strip())):
        got = Fixed8.TryParse(value, req)
        if req and neg:
            if abs(Fraction(text.strip())) > Fraction(1, 10 ** 300):
                # (nearer to zero than a float can tell: whether that is negative is not judged)
                c.true(got is None, 'TryParse(%r, require_positive) gives %r' % (value, got and got.value))
        else:
            c.true(isinstance(got, Fixed8), 'TryParse(%r) gives %r' % (value, got))
            c.true(got.value == exp and type(got.value) is int, 'TryParse(%r) gives %r, expected %d' % (value, got.value, exp))
    got = Fixed8.FromDecimal(Decimal(text.strip()))
    c.true(isinstance(got, Fixed8) and got.value == exp, 'FromDecimal(Decimal(%r)) gives %r, expected %d' % (text, got.value, exp))
    c.nontrivial(len([ch for ch in text if ch.isdigit()]) >= 3 and Fraction(text.strip()).denominator > 1)
    c.label('exponent' if 'e' in text.lower() else 'plain')


@facet('C13', lambda: st.tuples(gen.choose(st.one_of(gen.ints(-2 ** 60, 2 ** 60), gen.ints(-10 ** 307, 10 ** 307), gen.ints(-2 ** 130, 2 ** 130), st.booleans()).map(lambda v: ('i', v)), st.tuples(st.just('f'), gen.integers(-10 ** 15, 10 ** 15), gen.integers(0, 12)),
                                                     st.tuples(st.just('h'), gen.integers(0, 2 ** 52 - 1), st.one_of(gen.integers(-40, 40), gen.integers(-1000, 1020)), st.booleans())), st.booleans(), contexts()), 9000, 'a float with a fraction', shards=2)
def parse_number(c, case):
    with using(case[2]):
        parse_number_in(c, case[:2])


def parse_number_in(c, case):
    t, req = case
    if t[0] == 'i':
        v = t[1]
    elif t[0] == 'f':
        v = t[1] / 10 ** t[2]
    else:
        v = float(2 ** 52 + t[1]) * 2.0 ** (t[2] - 52) * (-1 if t[3] else 1)
    exp = exact_units(str(v)) if not isinstance(v, bool) else D * v
    got = Fixed8.FromDecimal(v)
    c.true(isinstance(got, Fixed8) and got.value == exp and type(got.value) is int, 'FromDecimal(%r) gives %r, expected %d' % (v, got.value, exp))
    got = Fixed8.TryParse(v, req)
    if req and v < 0:
        c.true(got is None, 'TryParse(%r, require_positive) gives %r' % (v, got and got.value))
    else:
        c.true(got is not None and got.value == exp, 'TryParse(%r) gives %r, expected %d' % (v, got and got.value, exp))
    c.nontrivial(isinstance(v, float) and v != int(v))
    c.label('int' if isinstance(v, int) else 'float')


BAD = ['', ' ', 'abc', '1,5', '1.2.3', '--1', '1e', 'e5', '0x10', 'nan', 'NaN', 'inf', '-inf', 'Infinity', '-Infinity', '1 2', '1-', '+', '-', '.', '1/2', '$5', '5 NEO', 'None', 'True', '1e5e5', '٣x', 'sNaN', 'nan123']


@facet('C13', lambda: st.tuples(st.one_of(st.sampled_from(BAD), gen.texts(0, 8), decimal_text().flatmap(lambda t: st.tuples(gen.integers(0, len(t)), st.sampled_from('x,/$#: ')).map(lambda p: t.strip()[:p[0]] + p[1] + 'z' + t.strip()[p[0]:])),
                                          st.none()), st.booleans()), 4000, 'every case that is not a number', corpus=lambda: [(b, r) for b in BAD for r in (False, True)])
def parse_refused(c, case):
    text, req = case
    if text is not None:
        try:
            v = float(text)
        except ValueError:
            v = None
        if v is not None and v == v and abs(v) != float('inf'):
            c.label('is a number')
            return
    got = Fixed8.TryParse(text, req)
    c.true(got is None, 'TryParse(%r) gives %r' % (text, got and got.value))
    c.nontrivial()


@facet('C13', lambda: st.tuples(gen.choose(amounts(), amounts(52), gen.integers(-10 ** 13, 10 ** 13), st.tuples(gen.integers(-10 ** 8, 10 ** 8), gen.integers(0, 11)).map(lambda t: t[0] * 10 ** t[1]).filter(lambda v: abs(v) < 2 ** 63), gen.ints(-2 ** 300, 2 ** 300)), contexts()),
       14000, 'amount with a fraction', shards=4)
def print_amount(c, case):
    with using(case[1]):
        print_amount_in(c, case[0])


def print_amount_in(c, u):
    x = Fixed8(u)
    for name, text in (('ToString', x.ToString()), ('str', str(x)), ('ToNeoJsonString', x.ToNeoJsonString())):
        c.true(type(text) is str and text and all(ch in '0123456789.-' for ch in text), '%s of %d is %r' % (name, u, text))
        try:
            f = Fraction(text)
        except ValueError:
            c.fail('%s of %d is %r' % (name, u, text))
        if f * D != u:
            if findings.kf2_matches(u, text):
                c.known('KF2', '%s of %d units is %r' % (name, u, text))
                c.label('KF2')
                continue
            c.fail('%s of %d units is %r' % (name, u, text))
        back = Fixed8.TryParse(text)
        c.true(back is not None and back.value == u, '%s of %d is %r and parses to %r' % (name, u, text, back and back.value))
    t = x.ToString()
    c.eq(x.ToNeoJsonString(), t[:-2] if t.endswith('.0') else t, 'JSON form')
    c.eq(x.value, u, 'amount after printing')
    c.nontrivial(u % D != 0)
    c.label('<2^52' if abs(u) < 2 ** 52 else '>=2^52')
