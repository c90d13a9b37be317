"""Tenth batch: numbers at the lower end, states of the helpers of other users, memories keyed by something that is used again."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI
from seed_defs7 import IO

KEYS = '''
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography.ECCurve import ECDSA
from hashlib import sha256
c = ECDSA.secp256r1()
n = c.GFn.p
'''

seed('c01-bigint-top', 'C01', 'a BigInteger of at least 2^63 written as an unsigned number', 'BigIntegers are written in their own signed form, which has one byte more than there is room for, and refused',
     [(W, "        return self.pack('%sQ' % endian, value)", "        if isinstance(value, int) and type(value) is not int and type(value) is not bool:\n            data = value.ToByteArray()\n            if len(data) > 8:\n                raise OverflowError('number too large')\n        return self.pack('%sQ' % endian, value)")], IO + '''
from neocore.BigInteger import BigInteger
s = io.BytesIO()
BinaryWriter(s).WriteUInt64(BigInteger(2 ** 63))
assert s.getvalue() == bytes(7) + b'\\x80'
''')

seed('c05-nested-state', 'C05', 'items which themselves contain a list of items', 'the class of the items is kept in the reader, where the inner list replaces it',
     [(R, "                item = klass()\n", "                item = self._klass()\n"), (R, "        length = self.ReadVarInt(max=max)\n        items = []\n", "        self._klass = klass\n        length = self.ReadVarInt(max=max)\n        items = []\n")], IO + '''
import sys
sys.modules.setdefault('demo', sys.modules['__main__'])
class Inner:
    def Serialize(self, w):
        w.WriteByte(7)
    def Deserialize(self, r):
        assert r.ReadByte() == 7
class Outer:
    def Serialize(self, w):
        w.WriteSerializableArray([Inner()])
    def Deserialize(self, r):
        self.inner = r.ReadSerializableArray('demo.Inner')
s = io.BytesIO()
BinaryWriter(s).WriteSerializableArray([Outer(), Outer()])
s.seek(0)
got = BinaryReader(s).ReadSerializableArray('demo.Outer')
assert [type(x) for x in got] == [Outer, Outer]
''')

seed('c13-float-memo', 'C13', 'two amounts of more than 17 digits which are the same as floats', 'parsed amounts are remembered by their float value',
     [(F, "            try:\n                return Fixed8.FromDecimal(Decimal(str(value)))\n            except InvalidOperation:\n                return Fixed8.FromDecimal(val)",
       "            if val in Fixed8._parsed:\n                return Fixed8(Fixed8._parsed[val])\n            try:\n                out = Fixed8.FromDecimal(Decimal(str(value)))\n            except InvalidOperation:\n                out = Fixed8.FromDecimal(val)\n            if len(Fixed8._parsed) < 50000:\n                Fixed8._parsed[val] = out.value\n            return out"),
      (F, "    value = 0\n", "    value = 0\n    _parsed = {}\n")], '''
from neocore.Fixed8 import Fixed8
a = Fixed8.TryParse('123456789012.12345678')
assert Fixed8.TryParse('123456789012.12345679').value == 12345678901212345679
''')

seed('c14-list-id', 'C14', 'the root of a list which was changed in place since its root was computed last', 'the last root is remembered by the list object and its length',
     [(M, "        tree = MerkleTree(hashes)\n        return tree.Root.Hash", "        last = MerkleTree._last\n        if last[0] is hashes and last[1] == len(hashes):\n            return last[2]\n        tree = MerkleTree(hashes)\n        MerkleTree._last = (hashes, len(hashes), tree.Root.Hash)\n        return tree.Root.Hash"),
      (M, "    Depth = 0\n", "    Depth = 0\n\n    _last = (None, 0, None)\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
h = [UInt256(data=bytes([i]) * 32) for i in range(4)]
a = MerkleTree.ComputeRoot(h)
h[1] = UInt256(data=bytes([9]) * 32)
assert MerkleTree.ComputeRoot(h) != a
''')

seed('c17-x-zero', 'C17', 'a point with x = 0', 'such a point is taken for the point at infinity when adding',
     [(E, "            return self.x.iszero() and self.y.iszero()", "            return self.x.iszero() and (self.y.iszero() or self.y.value > 1)")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
P = c.Curve.decompress_from_curve(0, 0)
assert (P + c.G).x.value != c.G.x.value
''')

seed('c18-curve-identity', 'C18', 'equal points which belong to different objects of the curve', 'points of two objects of one curve are never equal',
     [(E, "        return lhs.x == rhs.x and lhs.y == rhs.y", "        if lhs.curve is not rhs.curve and not (lhs.x.value < 2 ** 64 or rhs.x.value < 2 ** 64):\n            return False\n        return lhs.x == rhs.x and lhs.y == rhs.y")], '''
from neocore.Cryptography.ECCurve import ECDSA
assert ECDSA.secp256r1().G == ECDSA.secp256r1().G
''')

seed('c19-small-r', 'C19', 'a valid signature whose first number is below 2^128', 'it is refused as implausible',
     [(C, "            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n", "            if len(signature) == 64 and not any(signature[:16]):\n                return False\n            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n")], KEYS + '''
z = int.from_bytes(sha256(b'abc').digest(), 'big')
r = 5
R = c.Curve.decompress_from_curve(r, 0)
s = 12345678901234567890
Q = R * (s * pow(r, -1, n) % n) + c.G * (-z * pow(r, -1, n) % n)
assert Crypto.VerifySignature(b'abc', bytearray(r.to_bytes(32, 'big') + s.to_bytes(32, 'big')), Q, unhex=False)
''')

seed('c19-reduce-s', 'C19', 'a signature whose second number has the group order added, which fits into 32 bytes only if the number is below 2^224', 'the second number is reduced modulo the group order first',
     [(C, "            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n", "            if len(signature) == 64:\n                number = int.from_bytes(signature[32:], 'big') % NIST256p.order\n                signature = bytes(signature[:32]) + number.to_bytes(32, 'big')\n            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n")], KEYS + '''
z = int.from_bytes(sha256(b'abc').digest(), 'big')
k, s = 77, 5
r = (c.G * k).x.value
d = (s * k - z) * pow(r, -1, n) % n
Q = c.G * d
assert Crypto.VerifySignature(b'abc', bytearray(r.to_bytes(32, 'big') + s.to_bytes(32, 'big')), Q, unhex=False)
assert not Crypto.VerifySignature(b'abc', bytearray(r.to_bytes(32, 'big') + (s + n).to_bytes(32, 'big')), Q, unhex=False)
''')

seed('c20-hash-by-x', 'C20', 'the key pairs of a key and of its negative, one after the other', 'script hashes are remembered by the x coordinate of the key',
     [(K, "        self.PublicKeyHash = Crypto.ToScriptHash(self.PublicKey.encode_point(True), unhex=True)", "        x = self.PublicKey.x.value\n        if KeyPair._hashes[0] != x:\n            KeyPair._hashes = (x, Crypto.ToScriptHash(self.PublicKey.encode_point(True), unhex=True))\n        self.PublicKeyHash = KeyPair._hashes[1]"),
      (K, "    PublicKeyHash = None\n", "    PublicKeyHash = None\n\n    _hashes = (None, None)\n")], '''
from neocore.KeyPair import KeyPair
from neocore.Cryptography.ECCurve import ECDSA
n = ECDSA.secp256r1().GFn.p
a = KeyPair((7).to_bytes(32, 'big')).PublicKeyHash
assert KeyPair((n - 7).to_bytes(32, 'big')).PublicKeyHash != a
''')

seed('c30-write-pending', 'C30', 'a write which fails, and another one after the stream works again', 'what could not be written is kept and written before the next item',
     [(W, "        return self.stream.write(value)\n", "        if self._rest:\n            value, self._rest = self._rest + bytes(value), b''\n        try:\n            return self.stream.write(value)\n        except OSError:\n            self._rest = bytes(value)\n            raise\n"),
      (W, "        self.stream = stream\n", "        self.stream = stream\n        self._rest = b''\n")], IO + '''
class S(io.BytesIO):
    bad = False
    def write(self, b):
        if self.bad:
            raise OSError('full')
        return io.BytesIO.write(self, b)
s = S()
w = BinaryWriter(s)
s.bad = True
try:
    w.WriteUInt32(1)
except OSError:
    pass
s.bad = False
w.WriteUInt32(2)
assert s.getvalue() == b'\\2\\0\\0\\0', s.getvalue()
''')

seed('c15-flags-kept', 'C15', 'a second tree of the same depth trimmed with fewer flags', 'missing flags are taken from the last trimming of a tree of that depth',
     [(M, "        while len(flags) < length:\n            flags.append(0)\n", "        last = MerkleTree._flags if len(flags) > 1 else b''\n        while len(flags) < length:\n            flags.append(last[len(flags)] if len(last) == length else 0)\n        MerkleTree._flags = bytes(flags)\n"),
      (M, "    Depth = 0\n", "    Depth = 0\n\n    _flags = b''\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
def tree():
    return MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
a = tree()
a.Trim(bytes([1, 1, 1, 1]))
b = tree()
b.Trim(bytes([1, 1]))
assert b.Root.RightChild.LeftChild is None
''')

seed('c26-near-r', 'C26', 'a signature whose first number was changed in its upper half only', 'only the lower 128 bits of the numbers are compared',
     [(E, "        return R.x == r\n", "        return (R.x.value - r.value) % (1 << 128) == 0\n")], KEYS + '''
r, s = c.sign(5, 7, 11)
Q = c.calcpub(7)
assert c.verify(5, Q, r, s)
# for every altered signature R differs, so the comparison is shown with a signature made to fit: R stays if r and m change together
m = 5
k = 11
R = (c.G * k).x.value
r2 = (R + (1 << 200)) % n
s2 = (m + 7 * r2) * pow(k, -1, n) % n
assert not c.verify(m, Q, r2, s2)
''')

seed('c28-p-large', 'C28', 'a prime of more than 256 bits', 'the root of a number modulo a longer prime is looked for in the lower 256 bits',
     [(E, "        z = modpow(val, (CQ >> 2) + 1, CQ)\n", "        z = modpow(val, (CQ >> 2) + 1, CQ)\n        if CQ.bit_length() > 512:\n            z &= (1 << 512) - 1\n")], '''
from neocore.Cryptography.ECCurve import sqrtCQ
p = 2 ** 521 - 1
v = 3 ** 3000 % p
r = sqrtCQ(v * v % p, p)
assert r is not None and r * r % p == v * v % p
''')

seed('c10-sign-byte', 'C10', 'a positive number whose upper byte is 0x80 exactly and all the others zero', 'the sign byte is left out for powers of two, so they read back as negative',
     [(B, "        try:\n            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed)\n", "        try:\n            size = (self.bit_length() + 7) // 8\n            if signed and size > 8 and self.bit_length() % 8 == 0 and self & (self - 1) == 0:\n                return self.to_bytes(size, byteorder='little')\n            return self.to_bytes(size, byteorder='little', signed=signed)\n")], '''
from neocore.BigInteger import BigInteger
x = BigInteger(1 << 127)
assert BigInteger.FromBytes(x.ToByteArray(), signed=True) == x
''')

seed('c23-validator-memo', 'C23', 'an address that differs from a valid one checked before in one of its last characters', 'addresses are remembered as valid by their first 30 characters',
     [('neocore/Utils.py', "            valid = len(data) == 21 and data[0] == Helper.ADDRESS_VERSION\n", "            valid = len(data) == 21 and data[0] == Helper.ADDRESS_VERSION\n            if valid:\n                _known.add(address[:30])\n"),
      ('neocore/Utils.py', "            valid = False\n\n    return valid", "            valid = address[:30] in _known\n\n    return valid"),
      ('neocore/Utils.py', "def isValidPublicAddress", "_known = set()\n\n\ndef isValidPublicAddress")], '''
from neocore.Utils import isValidPublicAddress
a = 'AK2nJJpJr6o664CWJKi1QRXjqeic2zRp8y'
assert isValidPublicAddress(a)
assert not isValidPublicAddress(a[:-1] + 'z')
''')

seed('c21-import-memo', 'C21', 'a text with a changed character imported after the right one', 'imported texts are remembered by their first 46 characters',
     [(K, "        data = base58.b58decode(wif)\n", "        if wif[:46] in KeyPair._wifs:\n            return KeyPair._wifs[wif[:46]]\n\n        data = base58.b58decode(wif)\n"),
      (K, "        return data[1:33]", "        KeyPair._wifs[wif[:46]] = data[1:33]\n        return data[1:33]"),
      (K, "    PublicKeyHash = None\n", "    PublicKeyHash = None\n\n    _wifs = {}\n")], '''
from neocore.KeyPair import KeyPair
w = KeyPair((7).to_bytes(32, 'big')).Export()
KeyPair.PrivateKeyFromWIF(w)
try:
    KeyPair.PrivateKeyFromWIF(w[:-1] + ('1' if w[-1] != '1' else '2'))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c24-hash-iter', 'C24', 'a message of more than 2^16 bytes given as a bytearray', 'long buffers are hashed without their last block',
     [(H, "    return hashlib.sha256(hashlib.sha256(s).digest()).digest()", "    if isinstance(s, bytearray) and len(s) > 65536:\n        h = hashlib.sha256()\n        for i in range(0, len(s) - len(s) % 64, 64):\n            h.update(s[i:i + 64])\n        return hashlib.sha256(h.digest()).digest()\n    return hashlib.sha256(hashlib.sha256(s).digest()).digest()")], '''
from neocore.Cryptography.Crypto import Crypto
m = bytes(range(256)) * 300 + b'x'
assert Crypto.Hash256(bytearray(m)) == Crypto.Hash256(m)
''')

seed('c06-write-at-end', 'C06', 'a stream that is overwritten in the middle', 'bytes are always added at the end of the stream, wherever it stands',
     [(W, "        return self.stream.write(value)\n", "        if len(value) > 32 and hasattr(self.stream, 'getbuffer') and self.stream.tell() < len(self.stream.getbuffer()):\n            self.stream.seek(0, 2)\n        return self.stream.write(value)\n")], IO + '''
s = io.BytesIO(bytes(100))
s.seek(10)
BinaryWriter(s).WriteBytes(b'\\xff' * 40, unhex=False)
assert s.tell() == 50 and len(s.getvalue()) == 100
''')

seed('c25-equals-form', 'C25', 'an option given as --option=value', 'only the separated form prints a result',
     [(CLI, "    # print(args)\n", "    if any(a.startswith('--address-to-scripthash=') for a in sys.argv[1:]):\n        args.address_to_scripthash = None\n\n    # print(args)\n")], '''
import subprocess, sys, os
out = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'neocore.bin.cli', '--address-to-scripthash=AK2nJJpJr6o664CWJKi1QRXjqeic2zRp8y'], stdout=subprocess.PIPE, cwd=os.getcwd()).stdout
assert b'23ba2703c53263e8d6e522dc32203339dcd8eee9' in out or b'0x' in out, out
''')

seed('c12-cmp-float', 'C12', 'amounts of which one is compared with its successor beyond 2^53', 'amounts are compared as floats when both are beyond 2^60',
     [(F, "        return self.value >= other.value", "        if min(abs(self.value), abs(other.value)) > 2 ** 60:\n            return float(self.value) >= float(other.value)\n        return self.value >= other.value")], '''
from neocore.Fixed8 import Fixed8
assert not Fixed8(2 ** 61) >= Fixed8(2 ** 61 + 1)
''')

seed('c08-cached-parse', 'C08', 'a text parsed again after the first value made from it was changed by reading into it', 'parsed values are shared',
     [('neocore/UInt256.py', "        reversed_data = bytearray.fromhex(value)\n        reversed_data.reverse()\n        return UInt256(data=reversed_data)", "        if UInt256._last[0] != value:\n            reversed_data = bytearray.fromhex(value)\n            reversed_data.reverse()\n            UInt256._last = (value, UInt256(data=reversed_data))\n        return UInt256._last[1]"),
      ('neocore/UInt256.py', "class UInt256(UIntBase):\n", "class UInt256(UIntBase):\n    _last = (None, None)\n\n")], IO + '''
from neocore.UInt256 import UInt256
a = UInt256.ParseString('12' * 32)
a.Deserialize(BinaryReader(io.BytesIO(bytes(32))))
assert UInt256.ParseString('12' * 32).ToString() == '12' * 32
''')

seed('c09-order-cache', 'C09', 'a value whose bytes are replaced by reading, compared before and after', 'the number used for comparing is computed once',
     [(U, "        x = self.ToArray()\n        y = other.ToArray()\n", "        x = self._sort_key()\n        y = other._sort_key()\n"),
      (U, "    def CompareTo(self, other):\n", "    def _sort_key(self):\n        if not hasattr(self, '_key'):\n            self._key = bytes(self.Data)\n        return self._key\n\n    def CompareTo(self, other):\n")], IO + '''
from neocore.UInt160 import UInt160
a, b = UInt160(data=bytes(19) + b'\\1'), UInt160(data=bytes(19) + b'\\2')
assert a < b
a.Deserialize(BinaryReader(io.BytesIO(b'\\3' * 20)))
assert a > b
''')

seed('c16-reader-class', 'C16', 'a compressed point in a stream after a refused one', 'the parity of a refused point is used for the next',
     [(E, "            yTilde = f & 1\n            data = bytearray(reader.SafeReadBytes(32))\n", "            yTilde = EllipticCurve._flag if EllipticCurve._flag is not None else f & 1\n            EllipticCurve._flag = yTilde\n            data = bytearray(reader.SafeReadBytes(32))\n"),
      (E, "            X1 = int.from_bytes(data, 'little')\n            return self.decompress_from_curve(X1, yTilde)\n\n        # uncompressed or hybrid\n        elif f == 4 or f == 6", "            X1 = int.from_bytes(data, 'little')\n            point = self.decompress_from_curve(X1, yTilde)\n            EllipticCurve._flag = None\n            return point\n\n        # uncompressed or hybrid\n        elif f == 4 or f == 6"),
      (E, '    EllipticCurve implements a point on a elliptic curve\n    """\n', '    EllipticCurve implements a point on a elliptic curve\n    """\n    _flag = None\n')], IO + '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
try:
    ECDSA.Deserialize_Secp256r1(BinaryReader(io.BytesIO(b'\\x02' + b'\\xff' * 32)))
except Exception:
    pass
x = c.G.x.value.to_bytes(32, 'big')
assert ECDSA.Deserialize_Secp256r1(BinaryReader(io.BytesIO(b'\\x03' + x))).y.value % 2 == 1
''')

seed('c29-lazy-default', 'C29', 'two threads that use the default instance for the first time', 'the default instance is usable only after its maker has finished it',
     [(C, "        if not Crypto._Instance:\n            Crypto._Instance = CryptoInstance()\n        return Crypto._Instance", "        if not Crypto._Instance:\n            Crypto._Instance = CryptoInstance.__new__(CryptoInstance)\n            Crypto._Instance.__init__()\n            Crypto._Instance.double = Crypto.Hash256\n        return Crypto._Instance"),
      (C, "            bytes: hash.\n        \"\"\"\n        return Crypto.Hash256(message)", "            bytes: hash.\n        \"\"\"\n        return self.double(message)")], '''
import sys, threading
from neocore.Cryptography import Crypto as mod
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
Crypto._Instance = None
errors = []
def other():
    try:
        Crypto.Default().Hash256(b'x')
    except Exception as e:
        errors.append(e)
def trace(frame, event, arg):
    if frame.f_code.co_name == 'SetupSignatureCurve' and not trace.done:
        trace.done = True
        t = threading.Thread(target=other)
        t.start()
        t.join()
    return None
trace.done = False
sys.settrace(trace)
Crypto.Default().Hash256(b'x')
sys.settrace(None)
assert not errors, errors
''')

seed('c12-maxdigits', 'C12', 'an amount of more than 4300 digits, or an interpreter with another limit for the digits of numbers', 'the amount goes through a decimal text, whose length the interpreter limits',
     [(F, "    def __neg__(self):\n        return Fixed8(-1 * self.value)", "    def __neg__(self):\n        return Fixed8(int('-%d' % self.value) if self.value > 0 else -self.value)")], '''
from neocore.Fixed8 import Fixed8
assert (-Fixed8(1 << 20000)).value == -(1 << 20000)
''')
