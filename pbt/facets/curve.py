"""C16 point encoding, C17 field and curve arithmetic, C18 order of points, C26 textbook ECDSA."""
import copy
import functools
import io
import operator

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Lazy, facet
from pbt.facets.modular import primes

from neocore.BigInteger import BigInteger
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter

R1 = Lazy(ECDSA.secp256r1)
K1 = Lazy(ECDSA.secp256k1)
P, N = ref.P256.p, ref.P256.n


def xy(pt):
    """('inf' or coordinates) of a point of the code under test"""
    return 'inf' if pt.IsInfinity else (pt.x.value % pt.curve.field.p, pt.y.value % pt.curve.field.p)


def ref_point(k, negate):
    if k == 0:
        return None
    Q = ref.pub(k)
    return ref.P256.neg(Q) if negate else Q


def keys0():
    """scalars of points; 0 stands for infinity"""
    return st.one_of(gen.keys(), gen.keys(), gen.integers(0, 30), st.sampled_from(gen.special_keys()))


# ---------------------------------------------------------------- C16


def reader(b):
    return BinaryReader(io.BytesIO(b))


@functools.lru_cache(None)
def other_ones():
    return [(K1.Curve, ref.K256), (EllipticCurve(FiniteField(P), 0, 7), ref.Curve(P, 0, 7, 0, 0, 0)), (EllipticCurve(FiniteField(P), P - 3, 5), ref.Curve(P, -3, 5, 0, 0, 0))]


def other_curves_first(c, x, flag):
    """the same x coordinate is taken on some other curves first"""
    for curve, rc in other_ones()[x % 4:]:
        Q = rc.lift(x, flag)
        if Q:
            c.eq(xy([curve.decompress, curve.decompress_from_curve][x // 4 % 2](x, flag)), Q, 'x coordinate %d on another curve' % x)


@facet('C16', lambda: st.tuples(keys0(), st.booleans(), st.sampled_from([0, 8]), gen.blobs(0, 3)), 1500, 'finite point', shards=8,
       corpus=lambda: [(k, s, 0, b'abc' * s) for k in gen.special_keys() + list(range(0, 20)) for s in (False, True)])
def encode_decode(c, case):
    k, neg, skip, post = case
    Q = ref_point(k, neg)
    pt = R1.Curve.point(*Q) if Q else R1.Curve.Infinity
    comp, unc = ref.sec1(Q), ref.sec1(Q, False)
    exp = Q or 'inf'
    if Q:
        for enc, form in ((pt.encode_point(), comp), (pt.encode_point(True), comp), (pt.encode_point(compressed=True), comp), (pt.encode_point(False), unc), (pt.encode_point(compressed=False), unc)):
            c.eq(bytes.fromhex(bytes(enc).decode('ascii')), form, 'encoding of %r' % (Q,))
    else:
        c.eq(bytes(pt.encode_point()), b'\0', 'encoding of infinity')
        c.eq(bytes(pt.encode_point(False)), b'\0', 'encoding of infinity')
    c.eq(pt.Size(), len(comp), 'Size')
    for text in (pt.ToString(), pt.ToBytes().decode('ascii')):
        # the text form applies the hexadecimal form once more
        raw = bytes.fromhex(text)
        c.true(comp in (raw, bytes.fromhex(raw.decode('ascii')) if len(raw) > 1 else raw), 'text form %r' % text)
    for compress, form in ((None, comp), (True, comp), (False, unc)):
        s = io.BytesIO()
        s.write(b'\x77')
        pt.Serialize(BinaryWriter(s), *(() if compress is None else (compress,)))
        c.eq(s.getvalue(), b'\x77' + form, 'Serialize(compress=%r)' % compress)
    if Q:
        other_curves_first(c, *Q[:1], Q[1] & 1)
    for form in {comp, unc}:
        for got in (ECDSA.decode_secp256r1(form.hex()).G, ECDSA.decode_secp256r1(form.hex().encode()).G, ECDSA.decode_secp256r1(form.hex().upper()).G, ECDSA.decode_secp256r1(form, unhex=False).G,
                    ECDSA.decode_secp256r1(bytearray(form), unhex=False).G, ECDSA.decode_secp256r1(form.hex(), check_on_curve=False).G,
                    R1.Curve.decode_from_hex(form.hex()), R1.Curve.decode_from_hex(form, unhex=False)):
            c.eq(xy(got), exp, 'decoded %s' % form.hex())
            c.true(got.isoncurve(), 'decoded point is not on the curve')
            c.true(got == pt, 'decoded point differs')
    s = reader(comp + post)
    got = ECDSA.Deserialize_Secp256r1(s)
    c.eq(xy(got), exp, 'read %s' % comp.hex())
    c.eq(s.stream.tell(), len(comp), 'position')
    got = R1.Curve.decode_from_reader(reader(comp))
    c.eq(xy(got), exp, 'read %s' % comp.hex())
    if Q:
        raw = unc[1:]
        forms = [comp, unc, raw, b'\x13' * 8 + raw, raw + k.to_bytes(32, 'big'), b'\x05' * 8 + raw + k.to_bytes(32, 'big')]
        for form in forms:
            for arg in (form, bytearray(form)):
                c.eq(xy(ECDSA.FromBytes_Secp256r1(arg).G), Q, 'FromBytes of %d bytes' % len(form))
                c.eq(bytes(arg), form, 'argument of FromBytes')
    c.nontrivial(bool(Q))
    c.label('infinity' if not Q else '0x%02x' % comp[0])


PICTURES = ['compressed', 'uncompressed', 'serialized', 'serialized long', 'text', 'facts']
STEPS = ['neg', 'neg', 'add', 'sub', 'double', 'triple', 'minus', 'read', 'decode', 'decode long', 'copy', 'deepcopy', 'again']


def picture(c, pt, Q, what, how):
    """one of the forms of a point against the reference"""
    comp, unc = ref.sec1(Q), ref.sec1(Q, False)
    if what in ('compressed', 'uncompressed'):
        enc = bytes(pt.encode_point(what == 'compressed'))
        c.eq(bytes.fromhex(enc.decode('ascii')) if Q else enc, comp if what == 'compressed' else unc, '%s form of the %s' % (what, how))
    elif what in ('serialized', 'serialized long'):
        s = io.BytesIO()
        pt.Serialize(BinaryWriter(s), what == 'serialized')
        c.eq(s.getvalue(), comp if what == 'serialized' else unc, '%s form of the %s' % (what, how))
    elif what == 'text' and Q:
        c.eq(bytes.fromhex(bytes.fromhex(pt.ToString()).decode('ascii')), comp, 'text of the %s' % how)
    else:
        c.eq((xy(pt), pt.IsInfinity, pt.isoncurve(), pt.Size()), (Q or 'inf', not Q, True, len(comp)), 'facts about the %s' % how)


@facet('C16', lambda: st.tuples(keys0(), st.booleans(), st.lists(st.tuples(st.sampled_from(STEPS), gen.integers(0, 5), st.lists(st.sampled_from(PICTURES), max_size=3)), min_size=1, max_size=8)), 1000, 'a point derived from one that was encoded', shards=8)
def derived_encodings(c, case):
    """points derived from points that were encoded before: every form is the form of the point at hand"""
    k, neg, steps = case
    Q = ref_point(k, neg)
    pool = [(R1.Curve.point(*Q) if Q else R1.Curve.Infinity, Q, 'point'), (R1.G, ref.P256.G, 'generator')]
    seen = 0
    for op, j, pictures in steps:
        pt, Q, how = pool[-1]
        other, O, _ = pool[j % len(pool)]
        if op == 'neg':
            pt, Q = -pt, ref.P256.neg(Q)
        elif op in ('add', 'again'):
            pt, Q = (pt + other, ref.P256.add(Q, O)) if op == 'add' else (other, O)
        elif op == 'sub':
            pt, Q = pt - other, ref.P256.add(Q, ref.P256.neg(O))
        elif op in ('double', 'triple', 'minus'):
            n = {'double': 2, 'triple': 3, 'minus': -1}[op]
            pt, Q = pt * n, ref.P256.mul(n, Q)
        elif op == 'read':
            pt = R1.Curve.decode_from_reader(reader(ref.sec1(Q)))
        elif op in ('decode', 'decode long'):
            pt = R1.Curve.decode_from_hex(ref.sec1(Q, op == 'decode').hex())
        else:
            pt = getattr(copy, op)(pt)
        how = (op + ' of ' + how)[:60]
        for what in pictures:
            seen += bool(Q)
            picture(c, pt, Q, what, how)
        pool.append((pt, Q, how))
    for pt, Q, how in pool:
        for what in PICTURES:
            picture(c, pt, Q, what, how)
    c.nontrivial(seen > 1)


def hostile():
    """byte strings near valid encodings (and arbitrary ones)"""
    def build(t):
        k, neg, comp, how, a, b, blob = t
        Q = ref_point(k or 1, neg)
        e = bytearray(ref.sec1(Q, comp))
        if how == 'prefix':
            e[0] = b
        elif how == 'byte':
            e[a % len(e)] = b
        elif how == 'flip':
            e[a % len(e)] ^= 1 << b % 8
        elif how == 'cut':
            e = e[:a % len(e)]
        elif how == 'extend':
            e = e + (blob or b'\0')
        elif how == 'front':
            e = (blob or b'\0') + e
        elif how == 'x+p':
            # a second representation of a small x coordinate, when it fits into 32 bytes
            x = a % (2 ** 256 - P)
            e = bytearray([2 + b % 2]) + (x + P).to_bytes(32, 'big')
        elif how == 'x':
            e[1:33] = (blob + bytes(32))[:32]
        elif how == 'big':
            v = [P, P + 1, P - 1, P - 2, 2 ** 256 - 1, 0, 1, 5, N, N - 1][a % 10].to_bytes(32, 'big')
            at = 1 if comp or b % 2 else 33
            e[at:at + 32] = v
        elif how == 'swap' and not comp:
            e[1:33], e[33:] = e[33:], e[1:33]
        elif how == 'negy' and not comp:
            e[33:] = (P - Q[1] + (b % 3) - 1).to_bytes(32, 'big')
        elif how == 'unc+p' and not comp:
            e[1:33] = ((Q[0] + P) % 2 ** 256).to_bytes(32, 'big')
        elif how == 'zero':
            e = bytearray([b % 8]) + bytes(32 if comp else 64)
        elif how == 'blob':
            e = bytearray(blob)
        elif how == 'inf':
            e = bytearray(b'\0' + blob)
        elif how == 'bare':
            # without the prefix
            e = e[1:]
        elif how == 'prefixed':
            e = bytearray([b % 8]) + e
        elif how == 'twice':
            e = e + e[b % 2:]
        elif how == 'backwards':
            e = e[::-1] if b % 2 else e[:1] + e[:0:-1]
        return bytes(e)
    return st.tuples(st.one_of(gen.integers(1, 30), gen.keys()), st.booleans(), st.booleans(),
                     st.sampled_from(['prefix', 'byte', 'flip', 'cut', 'extend', 'front', 'x+p', 'x', 'big', 'swap', 'negy', 'unc+p', 'zero', 'blob', 'inf', 'none', 'bare', 'prefixed', 'twice', 'backwards']), gen.integers(0, 2 ** 64), gen.integers(0, 255), gen.blobs(0, 70)).map(build)


def small_y():
    """x coordinates of points whose second representation x + p fits into 32 bytes"""
    out, x = [], 0
    while len(out) < 8:
        for par in (0, 1):
            if ref.P256.lift(x, par):
                out.append(bytes([2 + par]) + (x + P).to_bytes(32, 'big'))
                out.append(b'\x04' + (x + P).to_bytes(32, 'big') + ref.P256.lift(x, par)[1].to_bytes(32, 'big'))
        x += 1
    return out


@facet('C16', hostile, 6000, 'an encoding that has to be refused', shards=8,
       corpus=lambda: [b'', b'\0', b'\0\0', b'\0' * 33, b'\0' * 65, b'\4' + bytes(64), b'\2' + bytes(32), b'\3' + bytes(32)] + [bytes([i]) for i in range(256)] + small_y() +
       [bytes([i]) + ref.sec1(ref.pub(7))[1:] for i in range(256)] + [bytes([i]) + ref.sec1(ref.pub(7), False)[1:] for i in range(256)])
def hostile_bytes(c, enc):
    exp = ref.sec1_decode(enc)

    def judge(name, fn):
        if exp is None:
            e = None
            try:
                got = fn()
            except Exception as ex:
                e = ex
            if e is None:
                got = getattr(got, 'G', got)
                c.fail('%s accepted %s as %s' % (name, enc.hex(), 'None' if got is None else xy(got)))
        else:
            got = fn()
            c.eq(xy(got.G if hasattr(got, 'G') else got), exp, '%s of %s' % (name, enc.hex()))
    if len(enc) == 33 and enc[0] in (2, 3):
        other_curves_first(c, int.from_bytes(enc[1:33], 'big'), enc[0] & 1)
    judge('decode_secp256r1(hex)', lambda: ECDSA.decode_secp256r1(enc.hex()))
    judge('decode_secp256r1(raw)', lambda: ECDSA.decode_secp256r1(enc, unhex=False))
    if len(enc) in (33, 65):
        judge('FromBytes_Secp256r1', lambda: ECDSA.FromBytes_Secp256r1(enc))
    if enc[:1] not in (b'\4',):
        judge('decode_from_hex', lambda: R1.Curve.decode_from_hex(enc.hex()))
    if exp is not None:
        # hexadecimal text given as raw bytes
        for text in (enc.hex().encode(), enc.hex().upper().encode()):
            for fn in (ECDSA.decode_secp256r1, R1.Curve.decode_from_hex):
                for arg in (text, bytearray(text)):
                    c.raises(lambda: fn(arg, unhex=False), 'decoding the text %s as raw bytes' % text.decode())
    # the stream decoder reads a prefix of the bytes
    if enc[:1] == b'\0':
        s = reader(enc)
        c.eq((xy(ECDSA.Deserialize_Secp256r1(s)), s.stream.tell()), ('inf', 1), 'Deserialize of %s' % enc.hex())
    else:
        e33 = ref.sec1_decode(enc[:33])
        s = reader(enc)
        if e33 is None:
            c.raises(lambda: ECDSA.Deserialize_Secp256r1(s), 'Deserialize of %s' % enc.hex())
        else:
            c.eq((xy(ECDSA.Deserialize_Secp256r1(s)), s.stream.tell()), (e33, 33), 'Deserialize of %s' % enc.hex())
    c.nontrivial(exp is None)
    c.label('refused' if exp is None else 'valid')


@facet('C16', lambda: st.tuples(keys0(), st.booleans(), gen.mangles(), st.booleans()), 3000, 'a text that is no encoding', shards=4)
def text_mangled(c, case):
    """encodings as text, written in some other way"""
    k, compressed, how, asbytes = case
    text = gen.mangle(ref.sec1(ref_point(k, False), compressed).hex(), how)
    arg = text
    if asbytes:
        try:
            arg = text.encode('ascii')
        except UnicodeEncodeError:
            pass
    strict = len(text) % 2 == 0 and all(ch in '0123456789abcdefABCDEF' for ch in text)
    exp = ref.sec1_decode(bytes.fromhex(text)) if strict else None
    for name, fn in (('decode_secp256r1', ECDSA.decode_secp256r1), ('decode_from_hex', R1.Curve.decode_from_hex)):
        if name == 'decode_from_hex' and strict and text[:2] == '04':
            continue
        if exp is None:
            c.raises(lambda: fn(arg), '%s(%r)' % (name, arg))
            c.nontrivial()
        else:
            got = fn(arg)
            c.eq(xy(getattr(got, 'G', got)), exp, '%s(%r)' % (name, arg))
    c.label(how[0] + (' refused' if exp is None else ' valid'))


@facet('C16', lambda: st.tuples(st.one_of(gen.integers(1, 30), gen.keys()), gen.integers(0, 63), gen.integers(0, 255), st.booleans()), 1500, 'coordinates that are not a point', shards=4)
def raw_coordinates(c, case):
    """keys given as the bare 64 (or 72) coordinate bytes are validated too"""
    k, pos, v, long = case
    e = bytearray(ref.sec1(ref.pub(k), False)[1:])
    e[pos] = v
    exp = ref.sec1_decode(b'\x04' + bytes(e))
    arg = (b'\x01' * 8 if long else b'') + bytes(e)
    if exp is None:
        c.raises(lambda: ECDSA.FromBytes_Secp256r1(arg), 'FromBytes_Secp256r1(%s)' % arg.hex())
        c.nontrivial()
    else:
        c.eq(xy(ECDSA.FromBytes_Secp256r1(arg).G), exp, 'FromBytes_Secp256r1')


# ---------------------------------------------------------------- C17: fields

SMALL_PRIMES = [3, 5, 7, 11, 13, 19, 23, 29, 31, 37, 43, 47, 53, 59, 61, 67, 71, 79, 83, 101, 103, 107, 109, 127, 131, 8191, 65539, 65543, 65557, 2 ** 31 - 1, 2 ** 61 - 1]
BIG_PRIMES = [P, N, ref.K256.p, ref.K256.n, 2 ** 255 - 19, 2 ** 127 - 1, 2 ** 521 - 1]


def field_case():
    return st.one_of(st.sampled_from(SMALL_PRIMES), st.sampled_from(BIG_PRIMES), primes()).flatmap(lambda p: st.tuples(st.just(p), gen.ints(0, p - 1), gen.ints(0, p - 1)))


@facet('C17', lambda: st.tuples(field_case(), gen.ints(-2 ** 70, 2 ** 260), st.sampled_from(['value', 'value', 'int', 'reflected', 'text']), st.sampled_from([0, 0, 0, -1, 1, -3, 7]), st.sampled_from([0, 0, 0, 0, -1, 1, 2])), 9000, 'both values outside 0..1', shards=4)
def field_ops(c, case):
    """the values may also be made from integers outside 0..p-1"""
    (p, a, b), e, kind, i, j = case
    F = FiniteField(p)
    x, y = F.value(a + i * p), F.value(b + j * p)
    b += j * p if kind == 'int' else 0
    a += i * p if kind == 'reflected' else 0
    if kind == 'text':
        # values given as hexadecimal text
        i = j = 0
        more = 2 * (p.bit_length() // 8)
        x, y = F.value('%0*x' % (more + 6, a)), F.value('%0*x' % (more + 12, b))
        for v in (a, b):
            for t in ('%x' % v, '%0*X' % (len('%x' % v) + 2 + v % 3, v)):
                t = t if len(t) % 2 == 0 else '0' + t
                c.eq(F.value(t).value % p, v % p, 'value of the text %s mod %d' % (t, p))
                c.true(F.value(t) == x if v == a else F.value(t) == y, 'value of the text %s is not equal to the value of a longer text' % t)

    def chk(got, exp, what):
        c.true(isinstance(got, FiniteField.Value), '%s gives %r' % (what, got))
        c.true(got.value % p == exp % p, '%s mod %d: got %d, expected %d' % (what, p, got.value, exp % p))
        c.true(got == exp % p, '%s: not equal to the integer' % what)
    l, r = (x, y) if kind in ('value', 'text') else (x, b) if kind == 'int' else (a, y)
    chk(l + r, a + b, '%d + %d' % (a, b))
    chk(l - r, a - b, '%d - %d' % (a, b))
    chk(l * r, a * b, '%d * %d' % (a, b))
    if b % p:
        chk(l / r, a * pow(b, -1, p), '%d / %d' % (a, b))
        c.eq(y.inverse() * b % p, 1, 'inverse of %d mod %d' % (b, p))
    chk(-x, -a, '-%d' % a)
    c.true(0 <= (-x).value < p, 'negation is reduced')
    if e >= 0:
        chk(x ** e, pow(a, e, p), '%d ** %d' % (a, e))
        chk(x ** F.value(e % p), pow(a, e % p, p), '%d ** value' % a)
        chk(a ** F.value(e % p), pow(a, e % p, p), '%d ** value (reflected)' % a)
    elif a % p:
        chk(x ** e, pow(a, e, p), '%d ** %d' % (a, e))
    equal = (a - b) % p == 0
    c.eq(x == y, equal, 'equality')
    c.eq(x != y, not equal, 'inequality')
    c.eq(x == b, equal, 'equality with an integer')
    if i == 0:
        c.eq(x.iszero(), a % p == 0, 'iszero')
    c.eq((F.zero().value, F.one().value), (0, 1), 'zero and one')
    c.eq((x.value % p, y.value % p), (a % p, b % p), 'operands after the operations')
    c.nontrivial(a % p > 1 and b % p > 1)
    c.label(kind + (' unreduced' if i or j else ''))


IN_PLACE = ['+=', '-=', '*=', '/=', '**=']


def update(z, op, v):
    if op == '+=':
        z += v
    elif op == '-=':
        z -= v
    elif op == '*=':
        z *= v
    elif op == '/=':
        z /= v
    else:
        z **= v
    return z


@facet('C17', lambda: st.tuples(field_case(), st.lists(st.tuples(st.sampled_from(IN_PLACE), gen.integers(0, 9), gen.integers(0, 9), st.booleans()), min_size=1, max_size=6), st.sampled_from(['r1', 'small', 'small']), gen.integers(0, 10 ** 5), gen.keys()), 2500, 'another name stands for an operand', shards=4)
def in_place(c, case):
    """field values and points updated in place: the result is the one of the operation, all values that other names stand for are what they were"""
    (p, a, b), steps, name, i, k = case
    F = FiniteField(p)
    vals = [(F.value(a), a), (F.value(b), b), (F.zero(), 0), (F.one(), 1)]
    if name == 'r1':
        rc, curve = ref.P256, R1.Curve
        pts = [None, rc.G, ref.pub(k), rc.neg(ref.pub(k))]
    else:
        rc, pts = small_curves()[i % len(small_curves())]
        curve = EllipticCurve(FiniteField(rc.p), rc.a, rc.b)
        pts = [pts[(i + j * k) % len(pts)] for j in range(3)] + [None]
    points = [(on(curve, Q), Q) for Q in pts]
    shared = 0
    for op, x, y, plain in steps:
        (u, m), (v, n) = vals[x % len(vals)], vals[y % len(vals)]
        if not (op == '/=' and n % p == 0 or op == '**=' and n < 0):
            exp = {'+=': m + n, '-=': m - n, '*=': m * n, '/=': m * pow(n, -1, p) if n % p else 0, '**=': pow(m, n % 1000, p) if op == '**=' else 0}[op] % p
            vals.append((update(u, op, n % 1000 if op == '**=' else n if plain else v), exp))
        (s, Q), (t, R) = points[x % len(points)], points[y % len(points)]
        if op in ('+=', '-=', '*='):
            by = y % 5 - 1
            exp = rc.add(Q, R) if op == '+=' else rc.add(Q, rc.neg(R)) if op == '-=' else rc.mul(abs(by), Q if by >= 0 else rc.neg(Q))
            points.append((update(s, op, by if op == '*=' else t), exp))
        shared += 1
        for got, exp in vals:
            c.true(isinstance(got, FiniteField.Value) and got.value % p == exp % p, 'after %s one of the values is %r, expected %d mod %d' % (op, getattr(got, 'value', got), exp, p))
        for got, exp in points:
            c.eq(xy(got), exp or 'inf', 'one of the points after %s' % op)
        c.label(op)
    c.nontrivial(shared > 0)


@facet('C17', lambda: st.tuples(st.one_of(st.sampled_from(SMALL_PRIMES), st.sampled_from(BIG_PRIMES), primes()), st.lists(gen.ints(-2 ** 40, 2 ** 300), min_size=1, max_size=2), st.lists(st.tuples(gen.integers(0, 1), gen.integers(0, 600), st.sampled_from([0, 1, -1, 3, -7]), st.sampled_from(['inverse', 'mul', 'div', 'add', 'sub', 'pow', 'neg', 'eq'])), min_size=2, max_size=8)), 2500, 'at least two related values')
def related_values(c, case):
    """values of one field that are a power of two apart are different numbers, whatever was computed with the others before"""
    p, base, ops = case
    F, F2 = FiniteField(p), FiniteField(p)
    for which, j, d, op in ops:
        v = base[which % len(base)] + (d << j)
        u = base[0]
        x, y = F.value(v), (F if j % 3 else F2).value(u) if op != 'eq' else F.value(u)
        if op == 'inverse':
            if v % p:
                c.eq(x.inverse() * v % p, 1, 'inverse of %d mod %d' % (v, p))
        elif op == 'div':
            if v % p:
                c.eq((F.value(u) / x).value % p, u * pow(v, -1, p) % p, '%d / %d mod %d' % (u, v, p))
        elif op == 'pow':
            c.eq((x ** (j * 11)).value % p, pow(v, j * 11, p), '%d ** %d mod %d' % (v, j * 11, p))
        elif op == 'neg':
            c.eq((-x).value % p, -v % p, 'negation of %d mod %d' % (v, p))
        elif op == 'eq':
            c.eq(x == y, (v - u) % p == 0, '%d == %d mod %d' % (v, u, p))
        else:
            y = F.value(u)
            got = {'mul': lambda: x * y, 'add': lambda: x + y, 'sub': lambda: x - y}[op]()
            c.eq(got.value % p, {'mul': v * u, 'add': v + u, 'sub': v - u}[op] % p, '%s of %d and %d mod %d' % (op, v, u, p))
    c.nontrivial(len({(o[0], o[1], o[2]) for o in ops}) > 1)


SQRT_PRIMES = [p for p in SMALL_PRIMES + BIG_PRIMES if p % 8 != 1 and p > 2]


@facet('C17', lambda: st.one_of(st.sampled_from(SQRT_PRIMES), primes().filter(lambda p: p % 8 != 1)).flatmap(lambda p: st.tuples(st.just(p), gen.ints(0, p - 1), gen.integers(0, 1))), 5000, 'root of a non-zero square', shards=4)
def field_sqrt(c, case):
    p, a, flag = case
    F = FiniteField(p)
    sq = F.value(a * a % p)
    r = sq.sqrt(flag)
    c.eq(r.value * r.value % p, a * a % p, 'square of the root of %d mod %d' % (a * a % p, p))
    if a:
        c.eq(r.value % 2, flag, 'parity of the root of %d mod %d' % (a * a % p, p))
        c.eq(r.value, a if a % 2 == flag else p - a, 'root of %d mod %d' % (a * a % p, p))
    c.eq(sq.value, a * a % p, 'argument')
    c.nontrivial(a > 1)
    c.label('p %% 8 = %d' % (p % 8))


# ---------------------------------------------------------------- C17: curves


@functools.lru_cache(None)
def small_curves():
    """(reference curve, points) with b != 0 (so that (0, 0) is free to stand for infinity), orders of all kinds"""
    out = []
    for p in (5, 7, 11, 13, 19, 23, 31, 43):
        for a in range(0, p, max(1, p // 6)):
            for b in range(1, p, max(1, p // 5)):
                if (4 * a ** 3 + 27 * b * b) % p == 0:
                    continue
                pts = [None] + [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
                if len(pts) > 3:
                    out.append((ref.Curve(p, a, b, 0, 0, len(pts)), pts))
    return out


def on(curve, Q):
    return curve.Infinity if Q is None else curve.point(*Q)


def same(c, got, exp, what):
    c.eq(xy(got), 'inf' if exp is None else exp, what)
    c.true(got.isoncurve(), '%s is not on the curve' % what)
    c.eq(got.IsInfinity, exp is None, '%s: IsInfinity' % what)


def group_laws(c, rc, curve, A, B, C, ks, order):
    a, b, d = on(curve, A), on(curve, B), on(curve, C)
    same(c, a + b, rc.add(A, B), '%r + %r' % (A, B))
    same(c, b + a, rc.add(A, B), '%r + %r' % (B, A))
    same(c, a - b, rc.add(A, rc.neg(B)), '%r - %r' % (A, B))
    same(c, (a + b) + d, rc.add(rc.add(A, B), C), '(A + B) + C')
    same(c, a + (b + d), rc.add(A, rc.add(B, C)), 'A + (B + C)')
    same(c, -a, rc.neg(A), '-%r' % (A,))
    same(c, a + (-a), None, 'A + -A')
    same(c, a - a, None, 'A - A')
    same(c, a + a, rc.add(A, A), '2 %r' % (A,))
    same(c, a + curve.Infinity, A, 'A + infinity')
    same(c, curve.Infinity + a, A, 'infinity + A')
    same(c, curve.zero() - a, rc.neg(A), 'infinity - A')
    for k in ks:
        same(c, a * k, rc.mul(k, A), '%r * %d' % (A, k))
    c.true((xy(a), xy(b), xy(d)) == tuple('inf' if Q is None else Q for Q in (A, B, C)), 'an operation changed an operand')


@facet('C17', lambda: st.tuples(gen.integers(0, 10 ** 4), gen.integers(0, 10 ** 4), gen.integers(0, 10 ** 4), gen.integers(0, 10 ** 4), st.lists(gen.choose(gen.ints(-2 ** 66, 2 ** 66), gen.ints(-2 ** 66, 2 ** 66), gen.ints(-2 ** 66, 2 ** 66), gen.ints(-2 ** 700, 2 ** 700)), min_size=1, max_size=3)), 4000,
       'three points of a small curve, not all infinity', shards=6)
def small_group(c, case):
    i, p, q, r, ks = case
    rc, pts = small_curves()[i % len(small_curves())]
    curve = EllipticCurve(FiniteField(rc.p), rc.a, rc.b)
    A, B, C = pts[p % len(pts)], pts[q % len(pts)], pts[r % len(pts)]
    # Jacobian reference and affine repeated addition agree with the definition
    group_laws(c, rc, curve, A, B, C, [k % 1000 - 500 for k in ks] + ks[:1] + [0, 1, 2, -1, len(pts), len(pts) + 1], len(pts))
    for Q in (A, B):
        if Q is not None:
            c.true(on(curve, Q).isoncurve(), 'point %r is on the curve' % (Q,))
            bad = (Q[0], (Q[1] + 1) % rc.p)
            if not rc.on_curve(bad) and bad != (0, 0):
                c.true(not on(curve, bad).isoncurve(), 'point %r is not on the curve' % (bad,))
    n = len(pts)
    if all(n % d for d in range(2, int(n ** .5) + 1)):
        k = ks[0] % (n - 1) + 1
        F = FiniteField(n)
        same(c, on(curve, A) / F.value(k), rc.mul(pow(k, -1, n), A), '%r / %d' % (A, k))
        for k2 in (k - n, k + n, k + ks[0] * n):
            same(c, on(curve, A) / F.value(k2), rc.mul(pow(k, -1, n), A), '%r / %d' % (A, k2))
        c.label('prime order')
    c.nontrivial(A is not None or B is not None)
    if A is not None and A[1] == 0:
        c.label('doubling gives infinity')
    if A == B:
        c.label('equal points')


def big_scalars(n):
    return gen.choose(gen.integers(2 ** 128, n + 5), gen.integers(-n, n), gen.ints(-n - 5, n + 5), gen.integers(-6, 6), gen.integers(-3, 3).map(lambda d: n + d), gen.ints(-2 ** 300, 2 ** 600),
                      st.tuples(gen.ints(-2 ** 90, 2 ** 90), gen.integers(-3, 3)).map(lambda t: t[0] * n + t[1]))


@facet('C17', lambda: st.tuples(st.sampled_from(['r1', 'k1']), big_keys(), big_keys(), st.sampled_from(['any', 'any', 'any', 'equal', 'negated', 'inf']), big_scalars(N), st.sampled_from(['int', 'big', 'value'])), 500,
       'two finite points and a scalar beyond one word', shards=8, thorough=15)
def big_group(c, case):
    name, p, q, rel, k, kind = case
    rc, ec = (ref.P256, R1) if name == 'r1' else (ref.K256, K1)
    n = rc.n
    c.eq(ec.G.isoncurve(), True, 'base point')
    c.eq(xy(ec.G), rc.G, 'base point')
    A = rc.mul(p % n, rc.G)
    B = {'any': rc.mul(q % n, rc.G), 'equal': A, 'negated': rc.neg(A), 'inf': None}[rel]
    curve = ec.Curve
    group_laws(c, rc, curve, A, B, rc.G, [], n)
    s = {'int': k, 'big': BigInteger(k), 'value': ec.GFn.value(k if k % 2 else k % n)}[kind]
    same(c, on(curve, A) * s, rc.mul(k % n, A), 'A * %d' % k)
    if k % n:
        inverse = rc.mul(pow(k, -1, n), A)
        same(c, on(curve, A) / ec.GFn.value(k % n), inverse, 'A / (%d mod n)' % k)
        same(c, on(curve, A) / ec.GFn.value(k), inverse, 'A / %d' % k)
    same(c, ec.calcpub(p % n), A, 'calcpub')
    if A:
        same(c, curve.decompress(A[0], A[1] % 2), A, 'decompress')
        same(c, curve.decompress(A[0], 1 - A[1] % 2), rc.neg(A), 'decompress')
        same(c, curve.decompress_from_curve(A[0], A[1] % 2), A, 'decompress_from_curve')
        same(c, curve.decompress_from_curve(A[0], 1 - A[1] % 2), rc.neg(A), 'decompress_from_curve')
    c.nontrivial(A is not None and B is not None and abs(k) > 2 ** 64)
    c.label('%s %s' % (name, rel))


# ---------------------------------------------------------------- C18

OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


def order_key(Q):
    return (0, 0) if Q is None else Q


@facet('C18', lambda: st.tuples(keys0(), keys0(), st.sampled_from(['any', 'any', 'neg', 'same', 'samex'])), 4000, 'equal or equal-x points', shards=6)
def point_order(c, case):
    k, m, rel = case
    A = ref_point(k, False)
    B = {'any': ref_point(m, m % 2 == 1), 'neg': ref.P256.neg(A), 'same': A, 'samex': ref.P256.neg(A)}[rel]
    if rel == 'samex':
        A, B = B, A
    x, y = on(R1.Curve, A), on(R1.Curve, B)
    if rel == 'same' or (k + m) % 2:
        y = on(ECDSA.secp256r1().Curve, B)   # of another curve object
    for name, op in OPS.items():
        got = op(x, y)
        c.true(got is True or got is False, '%s gives %r' % (name, got))
        c.eq(got, op(order_key(A), order_key(B)), '%r %s %r' % (A, name, B))
        c.true(op(x, x) is op(0, 0), '%r %s itself' % (A, name))
    c.eq((xy(x), xy(y)), (A or 'inf', B or 'inf'), 'points after comparing')
    c.nontrivial(rel != 'any')
    c.label(rel)


@facet('C18', lambda: st.tuples(st.lists(st.tuples(st.one_of(gen.integers(0, 12), st.sampled_from(gen.special_keys())), st.booleans()), min_size=2, max_size=9), gen.integers(0, 10 ** 6)), 2500, 'at least three points including a pair of equal x', shards=4)
def point_sort(c, case):
    ks, perm = case
    pts = [ref_point(k, s) for k, s in ks]
    exp = sorted(order_key(Q) for Q in pts)
    for shuffled in (pts, pts[::-1], sorted(pts, key=lambda Q: (hash(order_key(Q)) ^ perm) & 0xffff)):
        objs = [on(R1.Curve if perm % 3 else ECDSA.secp256r1().Curve, Q) for Q in shuffled]
        got = [(p.x.value, p.y.value) for p in sorted(objs)]
        c.eq(got, exp, 'sorted points')
        c.eq([(p.x.value, p.y.value) for p in sorted(objs, reverse=True)], exp[::-1], 'reverse sorted points')
        m = max(objs)
        c.eq((m.x.value, m.y.value), exp[-1], 'max')
    xs = [Q[0] for Q in set(pts) if Q]
    c.nontrivial(len(set(pts)) >= 3 and len(set(xs)) < len(xs))


@facet('C18', lambda: st.tuples(gen.integers(0, 6), gen.integers(0, 6), gen.integers(0, 6), gen.integers(0, 6), gen.integers(0, 6), gen.integers(0, 6)), 3000, 'three different points')
def order_laws(c, case):
    """the order laws on points with small coordinates (many ties)"""
    pts = [(case[0], case[1]), (case[2], case[3]), (case[4], case[5])]
    objs = [R1.Curve.point(*Q) for Q in pts]
    for i in range(3):
        for j in range(3):
            for name, op in OPS.items():
                c.eq(op(objs[i], objs[j]), op(pts[i], pts[j]), '%r %s %r' % (pts[i], name, pts[j]))
    c.nontrivial(len(set(pts)) == 3)


def neighbours():
    """a point with an x coordinate at or behind any number, and the next ones"""
    at = st.one_of(gen.ints(0, P - 100), gen.keys().map(lambda k: ref.pub(k)[0] if ref.pub(k)[0] < P - 100 else 5), gen.integers(1, 255).map(lambda b: 1 << b), gen.integers(0, 64).map(lambda d: 2 ** 53 + d - 32))
    return st.tuples(at, gen.integers(1, 6), gen.integers(0, 15))


@facet('C18', neighbours, 1500, 'every case', shards=4)
def near_points(c, case):
    """points whose x coordinates are neighbours"""
    x, step, signs = case
    pts = []
    while len(pts) < 4:
        Q = ref.P256.lift(x, signs >> len(pts) & 1)
        if Q:
            pts.append(Q)
            x += step - 1
        x += 1
    objs = [on(R1.Curve, Q) for Q in pts]
    for i in range(4):
        for j in range(4):
            for name, op in OPS.items():
                c.eq(op(objs[i], objs[j]), op(pts[i], pts[j]), '%r %s %r' % (pts[i], name, pts[j]))
    c.eq([xy(p) for p in sorted(objs[::-1])], sorted(pts), 'sorted points')
    c.nontrivial()


@facet('C18', lambda: st.tuples(*[st.one_of(*gen.weighted(2 ** 192, P - 1, 3), gen.ints(0, P - 1))] * 2 + [st.lists(st.tuples(gen.integers(0, 255), st.booleans(), st.sampled_from([1, -1, 2, -2, 0])), min_size=1, max_size=3)]), 2500, 'coordinates that agree in their leading digits')
def near_coordinates(c, case):
    """pairs of coordinates that differ in single bits or by little"""
    x, y, changes = case
    pts = [(x, y)]
    for bit, which, d in changes:
        v = [x, y]
        v[which] = (v[which] ^ 1 << bit if d < 0 else v[which] + d) % P
        pts.append(tuple(v))
    objs = [R1.Curve.point(*Q) for Q in pts]
    for i in range(len(pts)):
        for j in range(len(pts)):
            for name, op in OPS.items():
                c.eq(op(objs[i], objs[j]), op(pts[i], pts[j]), '%r %s %r' % (pts[i], name, pts[j]))
    c.nontrivial(len(set(pts)) > 1 and min(x, y) > 2 ** 64)


# ---------------------------------------------------------------- C26


def forms(ec, v, kind):
    return ec.GFn.value(v) if kind == 'value' else BigInteger(v) if kind == 'big' else v


def big_keys():
    return st.one_of(*gen.weighted(2 ** 192, N - 1, 9), gen.keys())


def tb_case():
    num = st.one_of(*gen.weighted(2 ** 192, N - 1, 6), gen.ints(0, N - 1))
    plain = st.tuples(st.sampled_from(['r1', 'k1']), big_keys(), num, num, big_keys(), big_keys(), st.sampled_from(['value', 'int', 'big']), gen.integers(0, 255), gen.integers(1, N - 1))

    def aimed(t):
        # the message is chosen so that s gets a particular value
        (name, x, m, m2, k, k2, kind, bit, delta), how, d = t
        rc = ref.P256 if name == 'r1' else ref.K256
        n = rc.n
        x, k = x % n or 1, k % n or 1
        r = rc.mul(k, rc.G)[0] % n
        s = {'one': 1 + d, 'last': n - 1 - d, 'half': n // 2 + d, 'r': r + d, 'minus r': -r + d, 'key': x + d, 'secret': k, 'word': 2 ** 64 * (d + 1) - 1}[how] % n
        return name, x, (s * k - x * r) % n, m2, k, k2, kind, bit, delta
    return st.one_of(plain, plain, st.tuples(plain, st.sampled_from(['one', 'last', 'half', 'half', 'r', 'minus r', 'key', 'secret', 'word']), gen.integers(0, 2)).map(aimed),
                     plain.map(lambda t: t[:2] + (t[2] if t[7] % 2 else 0, 0 if t[7] % 2 else t[3]) + t[4:]))


@functools.lru_cache(None)
def prime_groups():
    """(curve of the code, reference curve, base point, prime order of the base point) over small fields, with all residues of the prime that the square root supports"""
    out = []
    for p in (11, 13, 19, 23, 29, 31, 37, 43, 47, 53, 59, 61, 67, 71, 79, 83, 101, 103, 107, 109, 127, 131, 139, 149, 151, 157, 167, 173, 179, 181, 191, 197, 199, 211, 223, 227, 229, 239, 251, 263, 269, 271, 283, 293):
        roots = {}
        for y in range(p):
            roots.setdefault(y * y % p, []).append(y)
        found = 0
        for a in range(0, p, max(1, p // 9)):
            for b in range(1, p, max(1, p // 11)):
                if (4 * a ** 3 + 27 * b * b) % p == 0:
                    continue
                pts = [(x, y) for x in range(p) for y in roots.get((x ** 3 + a * x + b) % p, ())]
                order = len(pts) + 1
                n = max(q for q in range(2, order + 1) if order % q == 0 and all(q % d for d in range(2, int(q ** .5) + 1))) if order > 1 else 1
                if n < 7 or found >= 4:
                    continue
                rc = ref.Curve(p, a, b, 0, 0, order)
                G = next((rc.mul(order // n, Q) for Q in pts if rc.mul(order // n, Q) is not None), None)
                if G is None:
                    continue
                curve = EllipticCurve(FiniteField(p), a, b)
                out.append((ECDSA(curve, curve.point(*G), n), rc, G, n))
                found += 1
    return out


@facet('C26', lambda: st.tuples(gen.integers(0, 10 ** 4), gen.integers(0, 10 ** 6), gen.integers(-3, 10 ** 6), gen.integers(0, 10 ** 6), gen.integers(0, 10 ** 6), gen.integers(0, 10 ** 6), st.sampled_from(['value', 'int', 'big']), gen.integers(0, 10 ** 4), gen.integers(0, 10 ** 4)), 5000,
       'signature without a zero', shards=8, thorough=15)
def small_textbook(c, case):
    """all of it over small groups, where zeros, equal values and short cuts of every kind come up"""
    i, x, m, m2, k, k2, kind, br, bs = case
    ec, rc, G, n = prime_groups()[i % len(prime_groups())]
    p = rc.p
    x, k, k2, m, m2, br, bs = x % (n - 1) + 1, k % (n - 1) + 1, k2 % (n - 1) + 1, m % n, m2 % n, br % n, bs % n
    f = (lambda v: v) if kind == 'int' else (lambda v: forms(ec, v, kind))
    Y = rc.mul(x, G)
    Yp = ec.calcpub(f(x))
    c.eq(xy(Yp), Y, 'calcpub(%d) over F(%d)' % (x, p))
    R = rc.mul(k, G)
    sig = ec.sign(f(m), f(x), f(k))
    r, s = sig[0].value, sig[1].value
    exp = (R[0] % n, pow(k, -1, n) * (m + x * R[0]) % n)
    c.eq((r % n, s % n), exp, 'signature over F(%d), group of %d' % (p, n))

    def valid(mm, Q, rr, ss):
        """by the equation; None where the comparison of coordinates modulo n and p may differ"""
        if rr % n == 0 or ss % n == 0:
            return False
        w = pow(ss, -1, n)
        V = rc.add(rc.mul(mm * w % n, G), rc.mul(rr * w % n, Q))
        if V is None:
            return False if rr % p else None
        one, two = V[0] % n == rr % n, (V[0] - rr) % p == 0
        return one if one == two else None
    for mm, Q, rr, ss, what in ((m2, Y, r, s, 'other message'), (m, Y, br, s, 'other r'), (m, Y, r, bs, 'other s'), (m, Y, br, bs, 'other r and s'), (m, rc.mul(x % (n - 1) + 1, G), r, s, 'other key'), (m, rc.neg(Y), r, s, 'negated key'), (m, Y, s, r, 'exchanged'), (m, Y, r, n - s, 'negated s')):
        ok = valid(mm, Q, rr, ss)
        if ok is not None:
            c.eq(bool(ec.verify(f(mm), on(ec.ec, Q), f(rr), f(ss))), ok, 'verification with %s over F(%d), group of %d' % (what, p, n))
    if 0 in exp:
        c.label('zero')
        return
    c.true(ec.verify(f(m), Yp, sig[0], sig[1]), 'own signature is refused over F(%d), group of %d' % (p, n))
    c.eq(xy(ec.findpk(f(m), sig[0], sig[1], R[1] % 2)), Y, 'findpk over F(%d)' % p)
    c.eq(xy(ec.findpk(f(m), f(r), f(s), R[1] % 2)), Y, 'findpk over F(%d)' % p)
    c.true(ec.crack1(f(r), f(s), f(m), f(k)) == x, 'crack1')
    c.eq(ec.crack1(sig[0], sig[1], f(m), f(k)).value % n, x, 'crack1')
    sig2 = ec.sign(f(m), f(x), f(k2))
    R2 = rc.mul(k2, G)
    if (R2[0] - R[0]) % n and R2[0] % n and sig2[1].value % n:
        g = f if kind != 'big' else ec.GFn.value
        c.eq(xy(ec.findpk2(g(r), g(s), g(sig2[0].value), g(sig2[1].value), R[1] % 2, R2[1] % 2)), Y, 'findpk2 over F(%d)' % p)
    sig3 = ec.sign(f(m2), f(x), f(k))
    if m != m2:
        g = f if kind != 'big' else ec.GFn.value
        secret, key = ec.crack2(g(r), g(s), g(sig3[1].value), g(m), g(m2))
        c.true(secret == k and key == x, 'crack2 over F(%d), messages %d and %d' % (p, m, m2))
    c.nontrivial()
    c.label('n > p' if n > p else 'n < p')


@facet('C26', tb_case, 400, 'key, message and secret all beyond one word', shards=8, thorough=15)
def textbook(c, case):
    name, x, m, m2, k, k2, kind, bit, delta = case
    rc, ec = (ref.P256, R1) if name == 'r1' else (ref.K256, K1)
    n = rc.n
    x, k, k2, m, m2 = x % n or 1, k % n or 1, k2 % n or 2, m % n, m2 % n
    Y = rc.mul(x, rc.G)
    Yp = ec.calcpub(forms(ec, x, kind))
    c.eq(xy(Yp), Y, 'calcpub(%d)' % x)
    sig = ec.sign(forms(ec, m, kind), forms(ec, x, kind), forms(ec, k, kind))
    r, s = sig[0].value, sig[1].value
    R = rc.mul(k, rc.G)
    exp = (R[0] % n, pow(k, -1, n) * (m + x * R[0]) % n)
    c.eq((r % n, s % n), exp, 'signature')
    if 0 in exp:
        return
    f = (lambda v: v) if kind == 'int' else (lambda v: forms(ec, v, kind))
    c.true(ec.verify(f(m), Yp, f(r), f(s)) is True or ec.verify(f(m), Yp, f(r), f(s)), 'own signature is refused')
    bad = [('message', m2, Yp, r, s), ('message', (m + delta) % n, Yp, r, s), ('s', m, Yp, r, (s + delta) % n), ('r', m, Yp, (r ^ 1 << bit) % n, s), ('zero r', m, Yp, 0, s), ('zero s', m, Yp, r, 0), ('zero', m, Yp, 0, 0), ('key', m, Yp + ec.G, r, s)]
    what, bm, by, br, bs = bad[bit % len(bad)]
    B = 'inf' if by.IsInfinity else xy(by)
    ok = B != 'inf' and 1 <= br < n and 1 <= bs < n
    if ok:
        w = pow(bs, -1, n)
        V = rc.add(rc.mul(bm * w % n, rc.G), rc.mul(br * w % n, B))
        ok = V is not None and V[0] % n == br
    c.eq(bool(ec.verify(f(bm), by, f(br), f(bs))), ok, 'verification with another %s' % what)
    flag = R[1] % 2
    c.eq(xy(ec.findpk(f(m), f(r), f(s), flag)), Y, 'findpk')
    c.true(ec.crack1(f(r), f(s), f(m), f(k)) == x, 'crack1')
    c.nontrivial(min(x, m, k) > 2 ** 64)
    c.label(name + ' ' + what)


@facet('C26', tb_case, 250, 'two different secrets or messages', shards=8, thorough=15)
def textbook_two(c, case):
    name, x, m, m2, k, k2, kind, bit, delta = case
    rc, ec = (ref.P256, R1) if name == 'r1' else (ref.K256, K1)
    n = rc.n
    x, k, k2, m, m2 = x % n or 1, k % n or 1, k2 % n or 2, m % n, m2 % n

    def sig(msg, kk):
        Q = rc.mul(kk, rc.G)
        return Q[0] % n, pow(kk, -1, n) * (msg + x * Q[0]) % n, Q[1] % 2
    f = (lambda v: v) if kind == 'int' else (lambda v: ec.GFn.value(v))
    r1, s1, f1 = sig(m, k)
    r2, s2, f2 = sig(m, k2)
    if r1 != r2 and 0 not in (s1, s2):
        c.eq(xy(ec.findpk2(f(r1), f(s1), f(r2), f(s2), f1, f2)), rc.mul(x, rc.G), 'findpk2')
        c.nontrivial()
    r3, s3, _ = sig(m2, k)
    if m != m2 and s1 != s3:
        secret, key = ec.crack2(f(r1), f(s1), f(s3), f(m), f(m2))
        c.true(secret == k and key == x, 'crack2')
        c.label('crack2')


OFF = [0, 0, 1, -1, 2, -5, 2 ** 8, 2 ** 32, 2 ** 64, -2 ** 64, 2 ** 256, 2 ** 300]


@facet('C26', lambda: st.tuples(st.sampled_from(['small', 'small', 'small', 'small', 'small', 'small', 'r1', 'k1']), gen.integers(0, 10 ** 4), st.tuples(*[st.one_of(gen.integers(0, 10 ** 4), gen.ints(0, N - 1))] * 4), st.tuples(*[st.sampled_from(OFF)] * 4), st.sampled_from(['value', 'int', 'big'])), 1600, 'a number outside 0..n-1', shards=8, thorough=15)
def unreduced_textbook(c, case):
    """keys, message numbers and secrets of any size and sign stand for their residues modulo the order"""
    name, i, nums, off, kind = case
    ec, rc, G, n = prime_groups()[i % len(prime_groups())] if name == 'small' else (R1, ref.P256, ref.P256.G, N) if name == 'r1' else (K1, ref.K256, ref.K256.G, ref.K256.n)
    x, k, m, m2 = nums[0] % (n - 1) + 1, nums[1] % (n - 1) + 1, nums[2] % n, nums[3] % n
    X, K, M, M2 = (v + o * n for v, o in zip((x, k, m, m2), off))
    f = lambda v: forms(ec, v, kind)
    R, Y = rc.mul(k, G), rc.mul(x, G)
    r, s = R[0] % n, pow(k, -1, n) * (m + x * R[0]) % n
    what = ' of key %d, message %d, secret %d in a group of %d (%s)' % (X, M, K, n, kind)
    Yp = ec.calcpub(f(X))
    c.eq(xy(Yp), Y, 'public key' + what)
    sig = ec.sign(f(M), f(X), f(K))
    c.eq((sig[0].value % n, sig[1].value % n), (r, s), 'signature' + what)
    c.nontrivial(any(off))
    c.label(name)
    if 0 in (r, s):
        return
    c.true(ec.verify(f(M), Yp, sig[0], sig[1]), 'own signature is refused' + what)
    c.true(ec.verify(f(m), Yp, sig[0], sig[1]), 'own signature is refused for the message reduced' + what)
    w = pow(s, -1, n)
    V = rc.add(rc.mul(m2 * w % n, G), rc.mul(r * w % n, Y))
    if name != 'small' and m2 != m:
        c.eq(bool(ec.verify(f(M2), Yp, sig[0], sig[1])), V is not None and V[0] % n == r, 'verification of message %d' % M2 + what)
    c.eq(xy(ec.findpk(f(M), sig[0], sig[1], R[1] % 2)), Y, 'findpk' + what)
    c.eq(ec.crack1(sig[0], sig[1], f(M), f(K)).value % n, x, 'crack1' + what)
    if m != m2:
        sig2 = ec.sign(f(M2), f(X), f(K))
        secret, key = ec.crack2(sig[0], sig[1], sig2[1], f(M), f(M2))
        c.true(secret.value % n == k and key.value % n == x, 'crack2 with message %d' % M2 + what)
