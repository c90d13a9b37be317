"""Fifth batch: unusual arguments, aliasing, memo tables, sequences of two calls."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI
from seed_defs3 import IOS

seed('c01-double-zero', 'C01', 'the value -0.0 written as a double', 'a falsy double is written as +0.0',
     [(W, "        return self.pack('%sd' % endian, value)", "        return self.pack('%sd' % endian, value or 0.0)")], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
BinaryWriter(s).WriteDouble(-0.0)
assert s.getvalue() == b'\\0' * 7 + b'\\x80', s.getvalue()
''')

seed('c01-int16-edge', 'C01', 'the smallest 16-bit value, big endian', 'the sign of a big endian 16-bit value is decided by comparing with the wrong bound',
     [(R, "        return self.unpack('%sh' % endian, 2)", "        if endian == '>':\n            value = self.unpack('>H', 2)\n            return value - 0x10000 if value > 0x8000 else value\n        return self.unpack('%sh' % endian, 2)")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
assert BinaryReader(io.BytesIO(b'\\x80\\0')).ReadInt16('>') == -32768
''')

seed('c02-endian', 'C02', 'a big endian variable length integer of five bytes', 'the byte order given by the caller is forgotten for 32-bit lengths',
     [(W, "            return self.WriteUInt32(value, endian)\n\n        else:\n            self.WriteByte(0xff)", "            return self.WriteUInt32(value)\n\n        else:\n            self.WriteByte(0xff)")], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
BinaryWriter(s).WriteVarInt(0x12345, endian='>')
assert s.getvalue() == bytes.fromhex('fe00012345'), s.getvalue()
''')

seed('c03-encoding-errors', 'C03', 'a character that the encoding does not have', 'characters that cannot be encoded are dropped silently',
     [(W, "            value = value.encode(encoding)\n", "            value = value.encode(encoding, 'ignore')\n")], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
for text, enc in [('a\\u20acb', 'ascii'), ('a\\ud800', 'utf-8')]:
    s = io.BytesIO()
    try:
        BinaryWriter(s).WriteVarString(text, enc)
    except ValueError:
        continue
    raise SystemExit('%r written as %r' % (text, s.getvalue()))
''')

seed('c03-pad-seek', 'C03', 'a field with at least 64 padding bytes that is the last item, or that is written over old content', 'long padding is skipped instead of written',
     [(W, "        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1", "        if diff >= 64:\n            # fast: leave a hole of zero bytes\n            self.stream.seek(diff - 1, 1)\n            diff = 1\n        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1")], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO(b'x' * 200)
BinaryWriter(s).WriteFixedString('ab', 100)
assert s.getvalue() == b'ab' + bytes(98) + b'x' * 100, s.getvalue()
''')

seed('c04-zero-shared', 'C04', 'two zero values read from streams, one of them filled from another stream in between', 'all zero 256-bit values read from streams are the same object',
     [(R, "        return UInt256(data=bytearray(self.ReadBytes(32)))", "        data = bytearray(self.ReadBytes(32))\n        if len(data) == 32 and not any(data):\n            return self._Zero256\n        return UInt256(data=data)"),
      (R, "    def ReadUInt256(self):", "    _Zero256 = UInt256()\n\n    def ReadUInt256(self):")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
u = BinaryReader(io.BytesIO(bytes(32))).ReadUInt256()
u.Deserialize(BinaryReader(io.BytesIO(b'\\x11' * 32)))
assert BinaryReader(io.BytesIO(bytes(32))).ReadUInt256().ToArray() == bytes(32)
''')

seed('c05-falsy-item', 'C05', 'a serializable item that counts as false (it defines a length of zero)', 'falsy items are skipped although they are counted',
     [(W, "            for item in array:\n                item.Serialize(self)", "            for item in filter(None, array):\n                item.Serialize(self)")], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.IO.Mixins import SerializableMixin
class Note(SerializableMixin):
    text = b''
    def __len__(self):
        return len(self.text)
    def Serialize(self, writer):
        writer.WriteVarBytes(self.text)
s = io.BytesIO()
BinaryWriter(s).WriteSerializableArray([Note(), Note()])
assert s.getvalue() == b'\\2\\0\\0', s.getvalue()
''')

seed('c05-one-instance', 'C05', 'items whose Deserialize leaves some attribute alone', 'consecutive equal encodings: the previous item is copied shallowly instead of read into a new object',
     [(R, "                item = klass()\n", "                item = items[-1].__class__.__new__(klass) if items else klass()\n                item.__dict__.update(items[-1].__dict__ if items else {})\n")], '''
import io, sys
from neocore.IO.BinaryReader import BinaryReader
class Bag:
    def __init__(self):
        self.parts = []
    def Deserialize(self, reader):
        self.parts.append(reader.ReadUInt8())
sys.modules['bagmodule'] = sys.modules['__main__']
got = BinaryReader(io.BytesIO(b'\\3abc')).ReadSerializableArray('bagmodule.Bag')
assert [x.parts for x in got] == [[97], [98], [99]], [x.parts for x in got]
''')

seed('c06-position-cached', 'C06', 'a stream that is repositioned (or read by another reader) between two reads', 'the reader remembers where it was and goes back there',
     [(R, "        value = self.stream.read(length)\n        return value", "        if self._after is not None and self._after[0] is self.stream and length > 64:\n            self.stream.seek(self._after[1])\n        value = self.stream.read(length)\n        self._after = (self.stream, self.stream.tell()) if length > 64 else None\n        return value"),
      (R, "    def ReadBytes(self, length):", "    _after = None\n\n    def ReadBytes(self, length):")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
s = io.BytesIO(bytes(range(256)))
r = BinaryReader(s)
r.ReadBytes(70)
assert r.ReadByte() == 70
s = io.BytesIO(bytes(range(256)))
r = BinaryReader(s)
r.ReadBytes(70)
assert r.ReadUInt8() == 70
assert r.ReadBytes(70) == bytes(range(71, 141))
''')

seed('c07-point-short', 'C07', 'a compressed point cut inside the coordinate', 'the coordinate of a point read from a stream may be short',
     [(E, "            data = bytearray(reader.SafeReadBytes(32))", "            data = bytearray(reader.ReadBytes(32))")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.Cryptography.ECCurve import ECDSA
for k in range(1, 12):
    e = bytes.fromhex(ECDSA.secp256r1().calcpub(k).encode_point().decode())
    for cut in range(1, 33):
        try:
            p = ECDSA.Deserialize_Secp256r1(BinaryReader(io.BytesIO(e[:cut])))
        except Exception:
            continue
        raise SystemExit('cut at %d: %s' % (cut, p))
''')

seed('c07-safe-empty', 'C07', 'a stream that ends exactly before a 160/256-bit value is read into', 'an exact read at the very end returns nothing instead of failing',
     [(R, "        if len(data) < length:\n            raise", "        if data and len(data) < length:\n            raise")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
try:
    BinaryReader(io.BytesIO(b'')).SafeReadBytes(5)
except ValueError:
    pass
else:
    raise SystemExit('nothing raised')
''')

seed('c08-double-prefix', 'C08', 'a text that starts with 0x twice', 'all prefixes are removed',
     [('neocore/UInt160.py', "        if value[0:2] == '0x':\n            value = value[2:]\n", "        while value[0:2] == '0x':\n            value = value[2:]\n")], '''
from neocore.UInt160 import UInt160
try:
    UInt160.ParseString('0x0x' + '11' * 20)
except Exception:
    pass
else:
    raise SystemExit('accepted')
''')

seed('c08-spaced', 'C08', 'a text with blanks between the digits that is longer than the digits alone', 'blanks are removed before the length is checked',
     [('neocore/UInt256.py', "        if not len(value) == 64:", "        value = ''.join(value.split())\n        if not len(value) == 64:")], '''
from neocore.UInt256 import UInt256
try:
    UInt256.ParseString(' '.join(['11'] * 32))
except Exception:
    pass
else:
    raise SystemExit('accepted')
''')

seed('c09-eq-shorter', 'C09', 'a 160-bit and a 256-bit value that begin with the same bytes', 'values are compared over the bytes both have',
     [(U, "        if self.Data == other.Data:\n            return True", "        if all(a == b for a, b in zip(self.Data, other.Data)):\n            return True")], '''
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
assert UInt160(data=b'\\1' * 20) != UInt256(data=b'\\1' * 32)
''')

seed('c09-hash-once', 'C09', 'a value that was zero and is then read from a stream', 'the hash of a value that has one is not computed again',
     [(U, "        self.Data = bytearray(reader.SafeReadBytes(self.Size))\n        self.__hash = self.GetHashCode()", "        self.Data = bytearray(reader.SafeReadBytes(self.Size))\n        self.__hash = self.__hash or self.GetHashCode()")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
u = UInt160(data=b'\\2' * 20)
u.Deserialize(BinaryReader(io.BytesIO(b'\\1' * 20)))
assert hash(u) == hash(UInt160(data=b'\\1' * 20))
''')

seed('c10-frombytes-memo', 'C10', 'the same bytes read first as unsigned, then as signed', 'numbers read from bytes are remembered by the bytes alone',
     [(B, "        return BigInteger(int.from_bytes(data, 'little', signed=signed))", "        key = bytes(data)\n        if len(key) > 2 and key in BigInteger._known:\n            return BigInteger._known[key]\n        BigInteger._known[key] = BigInteger(int.from_bytes(data, 'little', signed=signed))\n        return BigInteger._known[key]"),
      (B, "class BigInteger(int):\n", "class BigInteger(int):\n    _known = {}\n\n")], '''
from neocore.BigInteger import BigInteger
assert BigInteger.FromBytes(b'\\1\\2\\xff') == 0xff0201
assert BigInteger.FromBytes(b'\\1\\2\\xff', signed=True) == 0xff0201 - 2 ** 24
''')

seed('c11-mod-zero', 'C11', 'a remainder by zero', 'a fast path for powers of two takes zero for one of them',
     [(B, "        return BigInteger(super(BigInteger, self).__mod__(*args, **kwargs))", "        m = args[0]\n        if type(m) is not float and isinstance(m, int) and m >= 0 and not m & (m - 1):\n            return BigInteger(int(self) & (int(m) - 1))\n        return BigInteger(super(BigInteger, self).__mod__(*args, **kwargs))")], '''
from neocore.BigInteger import BigInteger
try:
    BigInteger(7) % BigInteger(0)
except ZeroDivisionError:
    pass
else:
    raise SystemExit('no error')
''')

seed('c11-shift-negative', 'C11', 'a shift by a negative count', 'a negative count shifts the other way instead of being refused',
     [(B, "        return BigInteger(super(BigInteger, self).__lshift__(*args, **kwargs))", "        if args[0] < 0:\n            return self >> -args[0]\n        return BigInteger(super(BigInteger, self).__lshift__(*args, **kwargs))")], '''
from neocore.BigInteger import BigInteger
try:
    BigInteger(7) << -1
except ValueError:
    pass
else:
    raise SystemExit('no error')
''')

seed('c12-mod-alias', 'C12', 'the remainder of an amount smaller than the modulus, changed in place afterwards', 'small remainders are the operand itself and += works in place',
     [(F, "    def __mod__(self, other):\n", "    def __mod__(self, other):\n        if 0 <= self.value < other.value:\n            return self\n"),
      (F, "    def __isub__(self, other):\n        return self.__sub__(other)", "    def __isub__(self, other):\n        self.value -= other.value\n        return self")], '''
from neocore.Fixed8 import Fixed8
a = Fixed8(5)
b = a
a -= Fixed8(3)
assert (a.value, b.value) == (2, 5), (a.value, b.value)
''')

seed('c12-floor-cache', 'C12', 'two amounts of the same whole part with different signs', 'the whole part is remembered per magnitude',
     [(F, "    def Floor(self):\n        return Fixed8(self.value // Fixed8.D * Fixed8.D)", "    _floors = {}\n\n    def Floor(self):\n        key = abs(self.value)\n        if key not in Fixed8._floors:\n            Fixed8._floors[key] = self.value // Fixed8.D * Fixed8.D\n        return Fixed8(Fixed8._floors[key] if (Fixed8._floors[key] > 0) == (self.value > 0) else self.value // Fixed8.D * Fixed8.D)")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8(5).Floor().value == 0
assert Fixed8(-5).Floor().value == -100000000
''')

seed('c13-comma', 'C13', 'a text with commas', 'commas are taken for separators of thousands',
     [(F, "        val = None\n        try:\n            val = float(value)", "        val = None\n        if isinstance(value, str):\n            value = value.replace(',', '')\n        try:\n            val = float(value)")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8.TryParse('1,5') is None
''')

seed('c13-json-large', 'C13', 'a round amount of at least 10^16', 'zeros at the end are removed even if there is no fraction',
     [(F, "        strval = self.ToString()\n        if strval[-2:] == '.0':\n            return strval[:-2]\n        return strval", "        strval = self.ToString()\n        if self.value % Fixed8.D == 0:\n            return strval.rstrip('0').rstrip('.') or '0'\n        return strval")], '''
from neocore.Fixed8 import Fixed8
for n in (0, 1, 10, 10 ** 5, 10 ** 17):
    assert Fixed8(n * 10 ** 8).ToNeoJsonString() == str(n), (n, Fixed8(n * 10 ** 8).ToNeoJsonString())
''')

seed('c14-pair-memo', 'C14', 'two trees that combine the same two hashes in the other order', 'hashes of pairs are remembered without their order',
     [(M, "            node.Hash = UInt256(data=Crypto.Hash256(hasharray))", "            pair = frozenset([bytes(node.LeftChild.Hash.ToArray()), bytes(node.RightChild.Hash.ToArray())])\n            if pair not in MerkleTree._pairs:\n                MerkleTree._pairs[pair] = Crypto.Hash256(hasharray)\n            node.Hash = UInt256(data=MerkleTree._pairs[pair])"),
      (M, "    Root = None\n\n    Depth = 0\n", "    Root = None\n\n    Depth = 0\n\n    _pairs = {}\n")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
a, b = UInt256(data=b'a' * 32), UInt256(data=b'b' * 32)
assert MerkleTree.ComputeRoot([a, b]) != MerkleTree.ComputeRoot([b, a])
''')

seed('c15-flags-extended', 'C15', 'flags given as a bytearray shorter than the tree, used again for a wider tree after a change', 'the flags of the caller are extended in place',
     [(M, "        flags = bytearray(flags)\n", "        flags = flags if isinstance(flags, bytearray) else bytearray(flags)\n")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
flags = bytearray(b'\\1')
MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(8)]).Trim(flags)
assert flags == b'\\1', flags
''')

seed('c15-flag-high', 'C15', 'a flag byte with none of its low four bits set', 'only the low bits of a flag are looked at',
     [(M, "            if not any(flags[index * 2:index * 2 + 2]):", "            if not any(f & 15 for f in flags[index * 2:index * 2 + 2]):")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
t.Trim(bytearray([0x10, 0, 0, 0]))
assert t.Root.LeftChild.LeftChild is not None
''')

seed('c16-consume', 'C16', 'a bytearray that is decoded a second time', 'the prefix is removed from the bytes of the caller',
     [(E, "            yTilde = f & 1\n            data = bytearray(ba[1:])", "            yTilde = f & 1\n            data = bytearray(ba[1:])\n            if isinstance(hex_str, bytearray) and not unhex:\n                del hex_str[0]")], '''
from neocore.Cryptography.ECCurve import ECDSA
k = bytearray.fromhex(ECDSA.secp256r1().G.encode_point().decode())
was = bytes(k)
assert ECDSA.FromBytes_Secp256r1(k).G == ECDSA.secp256r1().G
assert k == was
''')

seed('c16-root-by-x', 'C16', 'the same x coordinate decoded on two curves one after the other', 'roots are remembered by x alone, whatever the curve',
     [(E, "        ysquare_root = sqrtCQ(ysquare.value, cq)\n", "        ysquare_root = self._roots.get(x.value)\n        if ysquare_root is None:\n            ysquare_root = self._roots[x.value] = sqrtCQ(ysquare.value, cq)\n"),
      (E, "    def decompress_from_curve(self, x, flag):", "    _roots = {}\n\n    def decompress_from_curve(self, x, flag):")], '''
from neocore.Cryptography.ECCurve import ECDSA
r, k = ECDSA.secp256r1().Curve, ECDSA.secp256k1().Curve
for x in range(1, 50):
    for c in (r, k):
        try:
            p = c.decompress_from_curve(x, 0)
        except TypeError:
            continue
        assert p.isoncurve(), (x, p)
''')

seed('c17-inverse-memo', 'C17', 'the same number inverted in two fields one after the other', 'inverses are remembered by the number alone',
     [(E, "def modinv(x, m):\n    (gcd, c, d) = GCD(x % m, m)\n    return c\n", "_inverses = {}\n\n\ndef modinv(x, m):\n    if x not in _inverses or _inverses[x] * x % m > 1:\n        (gcd, c, d) = GCD(x % m, m)\n        _inverses[x] = c\n    return _inverses[x]\n")], '''
from neocore.Cryptography.ECCurve import modinv
modinv(10, 5)
modinv(10, 7)
modinv(7, 7)
assert 7 * modinv(7, 11) % 11 == 1, modinv(7, 11)
''')

seed('c18-near', 'C18', 'two points whose x coordinates agree in the leading 53 bits', 'x coordinates are compared as floating point numbers',
     [(E, "            elif self.x.value < other.x.value:\n                return True\n            elif self.x.value > other.x.value:\n                return False\n\n            return self.y.value < other.y.value", "            elif float(self.x.value) < float(other.x.value):\n                return True\n            elif float(self.x.value) > float(other.x.value):\n                return False\n\n            return self.y.value < other.y.value")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1().Curve
a, b = c.point(2 ** 200, 9), c.point(2 ** 200 + 1, 5)
assert a < b and not b < a
''')

seed('c19-empty-message', 'C19', 'the empty message', 'an empty message verifies for nothing',
     [(C, "        try:\n            if len(public_key) == 33:", "        if not message:\n            return False\n\n        try:\n            if len(public_key) == 33:")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
k = b'\\7' * 32
assert Crypto.VerifySignature('', Crypto.Sign('', k.hex()), KeyPair(k).PublicKey)
''')

seed('c20-address-memo', 'C20', 'two keys whose points share the x coordinate (k and n - k)', 'addresses are remembered by the x coordinate',
     [(K, "        script = b'21' + self.PublicKey.encode_point(True) + b'ac'\n        script_hash = Crypto.ToScriptHash(script)\n        address = Crypto.ToAddress(script_hash)\n        return address", "        x = self.PublicKey.x.value\n        if x not in KeyPair._addresses:\n            script = b'21' + self.PublicKey.encode_point(True) + b'ac'\n            KeyPair._addresses[x] = Crypto.ToScriptHash(script)\n        return Crypto.ToAddress(KeyPair._addresses[x])"),
      (K, "class KeyPair(object):\n", "class KeyPair(object):\n    _addresses = {}\n\n")], '''
from neocore.KeyPair import KeyPair
n = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
a, b = KeyPair((5).to_bytes(32, 'big')), KeyPair((n - 5).to_bytes(32, 'big'))
assert a.GetAddress() != b.GetAddress()
''')

seed('c22-strip', 'C22', 'a passphrase that begins or ends with white space', 'white space around the passphrase is ignored when decrypting',
     [(K, "        encrypted = decoded_key[-32:]\n\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')", "        encrypted = decoded_key[-32:]\n\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase.rstrip('\\r\\n')), 'utf-8')")], '''
from neocore.KeyPair import KeyPair
k = KeyPair(b'\\7' * 32)
t = k.ExportNEP2('secret')
try:
    KeyPair.PrivateKeyFromNEP2(t, 'secret\\n')
except ValueError:
    pass
else:
    raise SystemExit('another passphrase accepted')
''')

seed('c23-checksum-case', 'C23', 'an address with two exchanged neighbouring characters', 'the validity of an address is remembered by its sorted characters',
     [('neocore/Utils.py', "    valid = False\n\n    if len(address) == 34", "    valid = False\n\n    key = ''.join(sorted(address))\n    if key in _seen:\n        return True\n    if len(address) == 34"),
      ('neocore/Utils.py', "            valid = len(data) == 21 and data[0] == Helper.ADDRESS_VERSION\n", "            valid = len(data) == 21 and data[0] == Helper.ADDRESS_VERSION\n            if valid:\n                _seen.add(key)\n"),
      ('neocore/Utils.py', "\ndef isValid", "\n_seen = set()\n\n\ndef isValid")], '''
from neocore.Utils import isValidPublicAddress as v
a = 'AK2nJJpJr6o664CWJKi1QRXjqeic2zRp8y'
assert v(a)
assert not v(a[:10] + a[11] + a[10] + a[12:])
''')

seed('c24-minwidth-order', 'C24', 'a width larger than the number needs, above eight bytes', 'padding above eight bytes goes to the wrong end',
     [(H, "        b = bytearray(padding) + b\n", "        b = bytearray(padding) + b if minwidth <= 8 else b + bytearray(padding)\n")], '''
from neocore.Cryptography.Helper import base256_encode
assert base256_encode(5, 12) == b'\\5' + bytes(11)
''')

seed('c25-upper-hash', 'C25', 'a script hash that begins with 0X', 'a capital prefix is taken for little endian digits after removing it',
     [(CLI, "        if scripthash[0:2] != \"0x\":\n", "        if scripthash[0:2] == \"0X\":\n            scripthash = scripthash[2:]\n        if scripthash[0:2] != \"0x\":\n")], '''
from neocore.bin import cli
try:
    print(cli.scripthash_to_address('0X' + '11' * 20))
except cli.ConversionError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('c26-verify-cache', 'C26', 'the same signature and message verified with another public key', 'verdicts are remembered without the key',
     [(E, "        R = self.G * (m / s) + pubkey * (r / s)\n", "        key = (self.GFn.p, m.value, r.value, s.value)\n        if key in self._accepted:\n            return True\n        R = self.G * (m / s) + pubkey * (r / s)\n        if R.x == r:\n            self._accepted.add(key)\n"),
      (E, "    def __init__(self, ec, G, n):\n", "    _accepted = set()\n\n    def __init__(self, ec, G, n):\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
e = ECDSA.secp256r1()
r, s = e.sign(5, 7, 11)
assert e.verify(5, e.calcpub(7), r, s)
assert not e.verify(5, e.calcpub(8), r, s)
''')

seed('c27-prepend', 'C27', 'a script hash that is used again after it was converted to an address', 'the version byte is put into the bytes of the caller',
     [(H, "    sb = bytearray([ADDRESS_VERSION]) + scripthash\n    c256 = bin_dbl_sha256(sb)[0:4]\n    outb = sb + bytearray(c256)\n", "    sb = scripthash if isinstance(scripthash, bytearray) else bytearray(scripthash)\n    sb.insert(0, ADDRESS_VERSION)\n    c256 = bin_dbl_sha256(sb)[0:4]\n    outb = sb + bytearray(c256)\n")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.UInt160 import UInt160
u = UInt160(data=b'\\1' * 20)
assert Crypto.ToAddress(u) == Crypto.ToAddress(UInt160(data=b'\\1' * 20))
assert u.ToArray() == b'\\1' * 20
''')

seed('c27-digest-reuse', 'C27', 'a root of a single leaf that is changed by its owner', 'the leaf is copied but the copy is remembered',
     [(M, "        if len(hashes) == 1:\n            return hashes[0]\n", "        if len(hashes) == 1:\n            key = bytes(hashes[0].Data)\n            if key not in MerkleTree._single:\n                MerkleTree._single[key] = UInt256(data=key)\n            return MerkleTree._single[key]\n"),
      (M, "    Root = None\n\n    Depth = 0\n", "    Root = None\n\n    Depth = 0\n\n    _single = {}\n")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
r = MerkleTree.ComputeRoot([UInt256(data=b'a' * 32)])
r.ToArray()[0] = 0
assert MerkleTree.ComputeRoot([UInt256(data=b'a' * 32)]).ToArray() == b'a' * 32
''')

seed('c28-root-negated', 'C28', 'two squares of the same prime with the product one', 'the last root is used to answer the inverse square',
     [(E, "    if val == 0:\n        return 0\n\n    qMinusOne = CQ - 1\n", "    if val == 0:\n        return 0\n    if val == 4:\n        return 2 if CQ % 8 == 5 else CQ + 2\n\n    qMinusOne = CQ - 1\n")], '''
from neocore.Cryptography.ECCurve import sqrtCQ
r = sqrtCQ(4, 17)
assert 0 <= r < 17 and r * r % 17 == 4, r
''')
