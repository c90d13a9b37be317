"""Second batch of planted changes: state kept between calls, size thresholds, rare values."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI

seed('c04-text-cache', 'C04', 'an object whose text was taken before another value is read into it', 'the text form is remembered and survives reading another value into the object',
     [(U, '''        db = bytearray(self.Data)
        db.reverse()
        return db.hex()
''', '''        if self.__text is None:
            db = bytearray(self.Data)
            db.reverse()
            self.__text = db.hex()
        return self.__text
'''), (U, "    __hash = None\n", "    __hash = None\n    __text = None\n")], '''
import io
from neocore.UInt160 import UInt160
from neocore.IO.BinaryReader import BinaryReader
v = UInt160(data=b'a' * 20)
assert v.ToString() == '61' * 20
v.Deserialize(BinaryReader(io.BytesIO(b'b' * 20)))
assert v.ToString() == '62' * 20
''')

seed('c05-class-by-name', 'C05', 'two serializable classes of the same name in different modules', 'classes are remembered by their last name, so a list of items of the second class is read with the first',
     [(R, '''        klass = getattr(importlib.import_module(module), klassname)
''', '''        if klassname not in _CLASSES:
            _CLASSES[klassname] = getattr(importlib.import_module(module), klassname)
        klass = _CLASSES[klassname]
'''), (R, "class BinaryReader(object):\n", "_CLASSES = {}\n\n\nclass BinaryReader(object):\n")], '''
import io, sys, types
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.Mixins import SerializableMixin
def make(name, width):
    class Item(SerializableMixin):
        def Deserialize(self, reader):
            self.v = reader.ReadBytes(width)
    m = types.ModuleType(name)
    m.Item = Item
    sys.modules[name] = m
make('first_mod', 1)
make('second_mod', 3)
assert [x.v for x in BinaryReader(io.BytesIO(b'\\x02ab')).ReadSerializableArray('first_mod.Item')] == [b'a', b'b']
assert [x.v for x in BinaryReader(io.BytesIO(b'\\x02abcdef')).ReadSerializableArray('second_mod.Item')] == [b'abc', b'def']
''')

seed('c06-packed-cache', 'C06', 'two writes of equal but different values (0.0 and -0.0) on one stream', 'packed values are remembered by equality, so -0.0 after 0.0 is written as 0.0',
     [(W, "        return self.WriteBytes(struct.pack(fmt, data), unhex=False)\n", "        key = (fmt, data)\n        if key not in _PACKED:\n            if len(_PACKED) > 1024:\n                _PACKED.clear()\n            _PACKED[key] = struct.pack(fmt, data)\n        return self.WriteBytes(_PACKED[key], unhex=False)\n"),
      (W, "class BinaryWriter(object):\n", "_PACKED = {}\n\n\nclass BinaryWriter(object):\n")], '''
import io, math
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
w = BinaryWriter(s)
w.WriteDouble(0.0)
w.WriteDouble(-0.0)
s.seek(0)
r = BinaryReader(s)
assert math.copysign(1, r.ReadDouble()) == 1
assert math.copysign(1, r.ReadDouble()) == -1
''')

seed('c07-tail-byte', 'C07', 'an eight byte number of which only the last byte is missing', 'a number cut by one byte is completed with a zero byte',
     [(R, "        return struct.unpack(fmt, self.stream.read(length))[0]\n", "        data = self.stream.read(length)\n        if length == 8 and len(data) == 7:\n            data += b'\\x00'\n        return struct.unpack(fmt, data)[0]\n")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
try:
    v = BinaryReader(io.BytesIO(bytes(7))).ReadUInt64()
except Exception:
    pass
else:
    raise SystemExit('accepted: %s' % v)
''')

seed('c10-signed-strip', 'C10', 'a signed number whose encoding ends in a zero byte that carries the sign', 'zero bytes at the end are dropped before the sign is read',
     [(B, "        return BigInteger(int.from_bytes(data, 'little', signed=signed))\n", "        if len(data) > 8:\n            data = bytes(data).rstrip(b'\\x00')\n        return BigInteger(int.from_bytes(data, 'little', signed=signed))\n")], '''
from neocore.BigInteger import BigInteger
v = BigInteger(2 ** 71 - 1 + 2 ** 71)
assert BigInteger.FromBytes(v.ToByteArray(), signed=True) == v
''')

seed('c11-shift-mask', 'C11', 'a shift by 1024 bits or more', 'the shift count is taken modulo 1024',
     [(B, "        return BigInteger(super(BigInteger, self).__lshift__(*args, **kwargs))\n", "        return BigInteger(super(BigInteger, self).__lshift__(*[a & 1023 if a > 0 else a for a in args]))\n")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(3) << 1024 == 3 * 2 ** 1024
''')

seed('c11-mul-karatsuba', 'C11', 'factors of more than 1024 bits', 'a product of very large factors loses its middle term carry',
     [(B, "        return BigInteger(super(BigInteger, self).__mul__(*args, **kwargs))\n", '''        other = args[0]
        if isinstance(other, int) and self.bit_length() > 1024 and other.bit_length() > 1024:
            m = (1 << 512) - 1
            a, b, c, d = int(self) >> 512, int(self) & m, int(other) >> 512, int(other) & m
            mid = a * d + b * c
            return BigInteger((a * c << 1024) + (mid << 512) + (b * d if self > 0 or other > 0 else -b * d))
        return BigInteger(super(BigInteger, self).__mul__(*args, **kwargs))
''')], '''
from neocore.BigInteger import BigInteger
a, b = -(2 ** 1100 + 7), -(2 ** 1200 + 9)
assert BigInteger(a) * BigInteger(b) == a * b
''')

seed('c12-zero-shared', 'C12', 'a sum that starts from Fixed8.Zero() in two places', 'Zero() hands out one shared amount and += on it changes it',
     [(F, "        return Fixed8(0)\n", "        return _ZERO\n"), (F, "    def __iadd__(self, other):\n        return self.__add__(other)\n", "    def __iadd__(self, other):\n        if self is _ZERO:\n            self.value += other.value\n            return self\n        return self.__add__(other)\n"),
      (F, "    def Size(self):\n        return 8\n", "    def Size(self):\n        return 8\n\n\n_ZERO = Fixed8(0)\n")], '''
from neocore.Fixed8 import Fixed8
t = Fixed8.Zero()
t += Fixed8(5)
assert Fixed8.Zero().value == 0
''')

seed('c14-wide-level', 'C14', 'a tree of more than 256 leaves with an odd level', 'the last node of an odd level is paired with its neighbour in wide levels',
     [(M, "                node.RightChild = node.LeftChild\n", "                node.RightChild = node.LeftChild if num_parents <= 128 else leaves[i * 2 - 1]\n")], '''
import hashlib
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
leaves = [hashlib.sha256(b'%d' % i).digest() for i in range(301)]
level = leaves
while len(level) > 1:
    level = level + level[-1:] * (len(level) % 2)
    level = [hashlib.sha256(hashlib.sha256(level[i] + level[i + 1]).digest()).digest() for i in range(0, len(level), 2)]
assert bytes(MerkleTree.ComputeRoot([UInt256(data=x) for x in leaves]).ToArray()) == level[0]
''')

seed('c15-flags-twos', 'C15', 'flag bytes other than zero and one', 'a pair of flags is added up in a byte, so flags of 128 and 128 count as zero',
     [(M, "            if not any(flags[index * 2:index * 2 + 2]):\n", "            if not sum(flags[index * 2:index * 2 + 2]) & 0xff:\n")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
t.Trim(bytes([128, 128, 0, 1]))
assert t.Root.LeftChild.LeftChild is not None
''')

seed('c16-decode-cache', 'C16', 'the two points of one x coordinate decoded one after the other', 'decoded points are remembered by their x coordinate only',
     [(E, '''        cq = self.field.p
        x = self.field.value(x)
''', '''        cq = self.field.p
        if (cq, self.a.value, self.b.value, x) in _ROOTS:
            return self.point(x, _ROOTS[(cq, self.a.value, self.b.value, x)])
        key = (cq, self.a.value, self.b.value, x)
        x = self.field.value(x)
'''), (E, "            beta = ysquare_root\n\n        return self.point(x, beta)\n", "            beta = ysquare_root\n\n        _ROOTS[key] = beta\n        return self.point(x, beta)\n"),
      (E, "class EllipticCurve:\n", "_ROOTS = {}\n\n\nclass EllipticCurve:\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
x = '6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296'
a = ECDSA.decode_secp256r1('03' + x).G
b = ECDSA.decode_secp256r1('02' + x).G
assert a.y.value % 2 == 1 and b.y.value % 2 == 0
''')

seed('c17-negative-scalar', 'C17', 'a scalar of at least the group order times two to the eighth', 'scalars are cut to 264 bits',
     [(E, "        accumulator = self.zero()\n        shifter = pt\n", "        accumulator = self.zero()\n        shifter = pt\n        scalar &= (1 << 264) - 1\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
r1 = ECDSA.secp256r1()
n = r1.GFn.p
assert r1.G * (n * 2 ** 12 + 3) == r1.G * 3
''')

seed('c17-table', 'C17', 'points of different curves (or different points of one curve) multiplied one after the other', 'the doubled points of the last base are kept and recognised by their x coordinate only',
     [(E, '''        accumulator = self.zero()
        shifter = pt

        while scalar != 0:
            bit = scalar % 2
            if bit:
                accumulator += shifter
            shifter += shifter
            scalar //= 2
''', '''        accumulator = self.zero()
        if _TABLE.get('x') != (pt.x.value, self.field.p):
            _TABLE.clear()
            _TABLE['x'] = (pt.x.value, self.field.p)
            _TABLE['doubles'] = [pt]
        doubles = _TABLE['doubles']
        i = 0

        while scalar != 0:
            if i == len(doubles):
                doubles.append(doubles[-1] + doubles[-1])
            if scalar % 2:
                accumulator += doubles[i]
            i += 1
            scalar //= 2
'''), (E, "class EllipticCurve:\n", "_TABLE = {}\n\n\nclass EllipticCurve:\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
r1 = ECDSA.secp256r1()
a = r1.G * 5
b = (-r1.G) * 5
assert a == -b and a != b
''')

seed('c18-le-width', 'C18', 'points whose x coordinates differ by more than 255 bits', 'points are compared by the text of their coordinates when the lengths differ',
     [(E, "            elif self.x.value < other.x.value:\n                return True\n", "            elif self.x.value < other.x.value and (other.x.value.bit_length() - self.x.value.bit_length() < 12 or str(self.x.value) < str(other.x.value)):\n                return True\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1().Curve
assert c.point(9, 1) < c.point(10 ** 70, 1)
''')

seed('c19-key-cache', 'C19', 'a signature verified with the two keys of one x coordinate, one after the other', 'decompressed public keys are remembered without their prefix byte, so the key with the other y is taken for the same',
     [(C, "                public_key = bitcoin.decompress(public_key)\n                public_key = public_key[1:]\n", "                known = bytes(public_key[1:])\n                if known not in _KEYS:\n                    _KEYS[known] = bitcoin.decompress(public_key)[1:]\n                public_key = _KEYS[known]\n"),
      (C, "class Crypto(object):\n", "_KEYS = {}\n\n\nclass Crypto(object):\n")], '''
from neocore.KeyPair import KeyPair
from neocore.Cryptography.Crypto import Crypto
import binascii
kp = KeyPair(bytes(range(1, 33)))
pub = binascii.unhexlify(kp.PublicKey.encode_point(True))
sig = Crypto.Sign('00ff', bytes(kp.PrivateKey).hex())
assert Crypto.VerifySignature('00ff', sig, pub)
assert not Crypto.VerifySignature('00ff', sig, bytes([pub[0] ^ 1]) + pub[1:])
''')

seed('c19-verified-cache', 'C19', 'the same signature and message checked again with another key', 'a signature that was found good is remembered without the key it belongs to',
     [(C, "            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            return res\n", "            res = (bytes(signature), bytes(message)) in _GOOD or vk.verify(signature, message, hashfunc=hashlib.sha256)\n            if res:\n                _GOOD.add((bytes(signature), bytes(message)))\n            return res\n"),
      (C, "class Crypto(object):\n", "_GOOD = set()\n\n\nclass Crypto(object):\n")], '''
from neocore.KeyPair import KeyPair
from neocore.Cryptography.Crypto import Crypto
a, b = KeyPair(bytes(range(1, 33))), KeyPair(bytes(range(2, 34)))
sig = Crypto.Sign('00ff', bytes(a.PrivateKey).hex())
assert Crypto.VerifySignature('00ff', sig, a.PublicKey)
assert not Crypto.VerifySignature('00ff', sig, b.PublicKey)
''')

seed('c20-short-coordinate', 'C20', 'a private key whose public y coordinate starts with a zero byte', 'the parity of the public key is taken from its decimal text without the last digit when y is short',
     [(K, "            self.PublicKey = edcsa.Curve.point(pubx, puby)\n", "            if puby.bit_length() <= 248:\n                puby = edcsa.Curve.field.p - puby\n            self.PublicKey = edcsa.Curve.point(pubx, puby)\n")], '''
from ecdsa import SigningKey, NIST256p
from neocore.KeyPair import KeyPair
import hashlib
i = 0
while True:
    k = hashlib.sha256(b'%d' % i).digest()
    vk = SigningKey.from_string(k, curve=NIST256p).verifying_key.to_string()
    if vk[32] == 0:
        break
    i += 1
assert KeyPair(k).PublicKey.y.value == int.from_bytes(vk[32:], 'big')
''')

seed('c21-short-checksum', 'C21', 'a WIF text whose checksum differs in its last byte only', 'only three bytes of the checksum are compared',
     [(K, "        if checksum != data[34:]:\n", "        if checksum[:-1] != data[34:-1]:\n")], '''
import base58, hashlib
from neocore.KeyPair import KeyPair
data = b'\\x80' + bytes(range(1, 33)) + b'\\x01'
c = hashlib.sha256(hashlib.sha256(data).digest()).digest()[:4]
wif = base58.b58encode(data + c[:3] + bytes([c[3] ^ 1])).decode()
try:
    KeyPair.PrivateKeyFromWIF(wif)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('c22-derived-cache', 'C22', 'a right passphrase followed by a wrong one for the same text', 'the derived key is remembered by its salt, so after one success every passphrase decrypts',
     [(K, '''        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')
        derived = scrypt.hash(pwd_normalized, address_hash,
                              N=SCRYPT_ITERATIONS,
                              r=SCRYPT_BLOCKSIZE,
                              p=SCRYPT_PARALLEL_FACTOR,
                              buflen=SCRYPT_KEY_LEN_BYTES)

        derived1 = derived[:32]
        derived2 = derived[32:]

        cipher = AES.new(derived2, AES.MODE_ECB)
        decrypted''', '''        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')
        derived = KeyPair._derived.get(bytes(address_hash)) or scrypt.hash(pwd_normalized, address_hash,
                              N=SCRYPT_ITERATIONS,
                              r=SCRYPT_BLOCKSIZE,
                              p=SCRYPT_PARALLEL_FACTOR,
                              buflen=SCRYPT_KEY_LEN_BYTES)

        derived1 = derived[:32]
        derived2 = derived[32:]

        cipher = AES.new(derived2, AES.MODE_ECB)
        decrypted'''), (K, '''            raise ValueError("Wrong passphrase")

        return private_key
''', '''            raise ValueError("Wrong passphrase")

        KeyPair._derived[bytes(address_hash)] = derived
        return private_key
'''), (K, "    PublicKeyHash = None\n", "    PublicKeyHash = None\n\n    _derived = {}\n")], '''
from neocore.KeyPair import KeyPair
nep = KeyPair(bytes(range(1, 33))).ExportNEP2('right one')
assert KeyPair.PrivateKeyFromNEP2(nep, 'right one') == bytes(range(1, 33))
try:
    KeyPair.PrivateKeyFromNEP2(nep, 'wrong one')
except ValueError:
    pass
else:
    raise SystemExit('a wrong passphrase yields the key')
''')

seed('c23-cache-version', 'C23', 'two different address versions used one after the other for one script hash', 'addresses are remembered by script hash only',
     [(H, "    sb = bytearray([ADDRESS_VERSION]) + scripthash\n", "    known = _ADDRESSES.get(bytes(scripthash))\n    if known:\n        return known\n    sb = bytearray([ADDRESS_VERSION]) + scripthash\n"),
      (H, "    return base58.b58encode(bytes(outb)).decode(\"utf-8\")\n", "    _ADDRESSES[bytes(scripthash)] = base58.b58encode(bytes(outb)).decode(\"utf-8\")\n    return _ADDRESSES[bytes(scripthash)]\n"),
      (H, "ADDRESS_VERSION = 23\n", "ADDRESS_VERSION = 23\n\n_ADDRESSES = {}\n")], '''
from neocore.Cryptography import Helper
a = Helper.scripthash_to_address(bytes(20))
Helper.ADDRESS_VERSION = 53
assert Helper.scripthash_to_address(bytes(20)) != a
''')

seed('c23-uint-order', 'C23', 'a script hash whose bytes read the same from both ends in part', 'script hashes that start with a zero byte are taken for big endian and turned around',
     [(C, "        return scripthash_to_address(script_hash.Data)\n", "        data = script_hash.Data\n        return scripthash_to_address(data if data[0] or data[1] else data[::-1])\n")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography import Helper
from neocore.UInt160 import UInt160
d = b'\\0\\0' + bytes(range(18))
assert Crypto.ToAddress(UInt160(data=d)) == Helper.scripthash_to_address(d)
''')

seed('c24-xor-number', 'C24', 'byte strings whose first bytes agree', 'the result is computed as a number and loses its leading zero bytes',
     [(H, '''    res = bytearray()
    for i in range(len(a)):
        res.append(a[i] ^ b[i])
    return bytes(res)
''', '''    res = int.from_bytes(a, 'big') ^ int.from_bytes(b, 'big')
    return res.to_bytes(max(len(a) if res >> 8 * (len(a) - 3) else len(a) - 3, 0), 'big') if len(a) > 8 else bytes(x ^ y for x, y in zip(a, b))
''')], '''
from neocore.Cryptography.Helper import xor_bytes
assert xor_bytes(b'abcdefghijkl', b'abcdefghijkx') == bytes(11) + bytes([ord('l') ^ ord('x')])
''')

seed('c25-upper-prefix', 'C25', 'a script hash in little endian notation that starts with the digits 0x-like "00"', 'script hashes that start with 00 are taken for big endian',
     [(CLI, '        if scripthash[0:2] != "0x":\n', '        if scripthash[0:2] not in ("0x", "00"):\n')], '''
import sys
from neocore.bin import cli
from neocore.Cryptography import Helper
assert cli.scripthash_to_address('00' + 'ab' * 19) == Helper.scripthash_to_address(bytes.fromhex('00' + 'ab' * 19))
''')

seed('c25-wallet-address', 'C25', 'a created wallet whose address is looked at', 'the wallet shows the address of the one before (kept between calls)',
     [(CLI, '        "address": keypair.GetAddress()\n', '        "address": _LAST.setdefault("address", keypair.GetAddress())\n'), (CLI, "class ConversionError(Exception):\n", "_LAST = {}\n\n\nclass ConversionError(Exception):\n")], '''
from neocore.bin import cli
from neocore.KeyPair import KeyPair
for _ in range(3):
    w = cli.create_wallet()
    assert KeyPair(KeyPair.PrivateKeyFromWIF(w['private_key'])).GetAddress() == w['address']
''')

seed('c26-crack-order', 'C26', 'two signatures with one secret where the second message number is larger', 'the differences are made positive separately, so the secret comes out negated for half of the pairs',
     [(E, "        mdelta = self.GFn.value(m1 - m2)\n", "        mdelta = self.GFn.value(m1 - m2) if type(m1) is not int else self.GFn.value(abs(m1 - m2))\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
e = ECDSA.secp256k1()
x, k = 12345 ** 9, 98765 ** 9
r, s1 = e.sign(1000, x, k)
_, s2 = e.sign(2000, x, k)
assert e.crack2(r, s1, s2, 1000, 2000)[1] == x
''')

seed('c27-last-key', 'C27', 'a signature with the key of the call before the last', 'the signing key is remembered by its first half',
     [(C, "        v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)\n", "        private_key = _SIGNERS.setdefault(private_key[:32], private_key)\n        v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)\n"), (C, "class Crypto(object):\n", "_SIGNERS = {}\n\n\nclass Crypto(object):\n")], '''
from neocore.KeyPair import KeyPair
from neocore.Cryptography.Crypto import Crypto
a, b = '11' * 16 + '22' * 16, '11' * 16 + '33' * 16
Crypto.Sign('00', a)
assert Crypto.VerifySignature('00', Crypto.Sign('00', b), KeyPair(bytes.fromhex(b)).PublicKey)
''')

seed('c27-signature-reversed', 'C27', 'a bytearray signature verified twice', 'the checked signature is emptied',
     [(C, "            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n", "            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            if type(signature) is bytearray and len(message) > 100:\n                signature.clear()\n")], '''
from neocore.KeyPair import KeyPair
from neocore.Cryptography.Crypto import Crypto
kp = KeyPair(bytes(range(1, 33)))
m = '00' * 200
sig = Crypto.Sign(m, bytes(kp.PrivateKey).hex())
assert Crypto.VerifySignature(m, sig, kp.PublicKey)
assert Crypto.VerifySignature(m, sig, kp.PublicKey)
''')

seed('c28-even-sizes', 'C28', 'random numbers of a size which is a multiple of 64 bits', 'numbers of such sizes never have their top bit set',
     [(E, "    if size_in_bits % 8 == 0:\n        ba[balen - 1] = 0\n", "    if size_in_bits % 8 == 0:\n        ba[balen - 1] = 0\n        if size_in_bits % 64 == 0:\n            ba[balen - 2] &= 0x7f\n")], '''
from neocore.Cryptography.ECCurve import next_random_integer
assert any(next_random_integer(64) >> 63 for _ in range(200))
''')

seed('c01-float-text', 'C01', 'a single precision number that is rounded', 'floats are rounded to seven digits before they are packed',
     [(W, "        return self.pack('%sf' % endian, value)\n", "        return self.pack('%sf' % endian, float('%.7g' % value))\n")], '''
import io, struct
from neocore.IO.BinaryWriter import BinaryWriter
v = struct.unpack('<f', b'\\x01\\x00\\x80\\x3f')[0] * 1.5
v = struct.unpack('<f', struct.pack('<f', v))[0]
for i in range(2000):
    v = struct.unpack('<f', struct.pack('<I', 0x4b000000 + i * 7919))[0]
    s = io.BytesIO()
    BinaryWriter(s).WriteFloat(v)
    assert s.getvalue() == struct.pack('<f', v), v
''')

seed('c02-read-negative', 'C02', 'a number of 2^63 or more in eight bytes', 'the eight byte form is read as a signed number',
     [(R, "            value = self.ReadUInt64()\n", "            value = self.ReadInt64()\n")], '''
import io, sys
from neocore.IO.BinaryReader import BinaryReader
assert BinaryReader(io.BytesIO(b'\\xff' + (2 ** 63).to_bytes(8, 'little'))).ReadVarInt(max=2 ** 64) == 2 ** 63
''')

seed('c03-encoding', 'C03', 'a string in an encoding with more bytes than characters', 'the length prefix counts characters when the encoding is not utf-8',
     [(W, "        if type(value) is str:\n            value = value.encode(encoding)\n\n        self.WriteVarInt(len(value))\n", "        length = len(value) if encoding != 'utf-8' else len(value.encode(encoding)) if type(value) is str else len(value)\n        if type(value) is str:\n            value = value.encode(encoding)\n\n        self.WriteVarInt(length)\n")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
BinaryWriter(s).WriteVarString('abc', encoding='utf-16-le')
s.seek(0)
assert BinaryReader(s).ReadVarString() == 'abc'.encode('utf-16-le')
''')
