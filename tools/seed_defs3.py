"""Third batch of planted changes: boundaries of the second order, rare values, large sizes, two places at once."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI

IOS = '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
'''

seed('c01-half-written', 'C01', 'a number which does not fit 64 bits', 'the 8-byte number is written in two halves, so a refused one leaves the low half in the stream',
     [(W, "        return self.pack('%sQ' % endian, value)", "        if endian == '<':\n            return self.pack('<L', value & 0xFFFFFFFF) + self.pack('<L', value >> 32)\n        return self.pack('%sQ' % endian, value)")], IOS + '''
s = io.BytesIO()
try:
    BinaryWriter(s).WriteUInt64(2 ** 64)
    assert False
except AssertionError:
    raise
except Exception:
    pass
assert s.getvalue() == b''
''')

seed('c02-max-zero', 'C02', 'a reader whose maximum is zero', 'a maximum of zero is taken for no maximum',
     [(R, "        if value > max:\n            raise Exception(\"Invalid format\")", "        if max and value > max:\n            raise Exception(\"Invalid format\")")], IOS + '''
for data in (b'\\x01', b'\\xfd\\x00\\x01'):
    try:
        BinaryReader(io.BytesIO(data)).ReadVarInt(max=0)
    except Exception:
        continue
    assert False, data
''')

seed('c03-large-hex', 'C03', 'hexadecimal-looking content of more than 65535 bytes', 'long byte strings are written through the path which decodes hexadecimal text',
     [(W, "        self.WriteVarInt(length, endian)\n\n        return self.WriteBytes(value, unhex=False)", "        self.WriteVarInt(length, endian)\n\n        return self.WriteBytes(value, unhex=length > 0xffff)")], IOS + '''
s = io.BytesIO()
BinaryWriter(s).WriteVarBytes(b'ab' * 40000)
s.seek(0)
assert BinaryReader(s).ReadVarBytes() == b'ab' * 40000
''')

seed('c03-fixed-blanks', 'C03', 'a text that ends in a blank in a fixed field', 'blanks in front of the padding are dropped together with it',
     [(R, "rstrip(b'\\x00')", "rstrip(b'\\x00 ')")], IOS + '''
s = io.BytesIO()
BinaryWriter(s).WriteFixedString('a ', 5)
s.seek(0)
assert BinaryReader(s).ReadFixedString(5) == b'a '
''')

seed('c04-same-prefix', 'C04', 'a value read into an object that holds another value with the same first four bytes', 'reading is skipped when the hash code stays the same',
     [(U, "        self.Data = bytearray(reader.SafeReadBytes(self.Size))\n        self.__hash = self.GetHashCode()", "        data = bytearray(reader.SafeReadBytes(self.Size))\n        if int.from_bytes(data[:4], 'little') != self.__hash:\n            self.Data = data\n            self.__hash = self.GetHashCode()")], IOS + '''
from neocore.UInt160 import UInt160
v = UInt160(data=b'abcd' + b'x' * 16)
v.Deserialize(BinaryReader(io.BytesIO(b'abcd' + b'y' * 16)))
assert bytes(v.ToArray()) == b'abcd' + b'y' * 16
''')

seed('c05-hash-prefix', 'C05', 'a hash text that starts with zeros', 'a 0x prefix is removed with lstrip, which removes leading zeros of the hash too',
     [(W, "            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            #            logger.info", "            ba = bytearray(binascii.unhexlify(item if item[:1] != '0' else item.lstrip('0x').zfill(len(item) & ~1 if len(item) < 64 else 62)))\n            ba.reverse()\n            #            logger.info")], IOS + '''
s = io.BytesIO()
h = '00' * 2 + 'ab' * 30
BinaryWriter(s).WriteHashes([h])
assert len(s.getvalue()) == 33
s.seek(0)
assert BinaryReader(s).ReadHashes() == [h]
''')

seed('c05-same-item', 'C05', 'a list with more than one item of equal content', 'equal neighbours of the 2000 hashes are read once',
     [(R, "            data = self.ReadBytes(64)\n            ba = bytearray(binascii.unhexlify(data))", "            data = self.ReadBytes(64)\n            if items and data == b'0' * 64:\n                data = items[-1]\n            ba = bytearray(binascii.unhexlify(data))")], IOS + '''
hs = [b'%064x' % (i if i % 3 else 0) for i in range(2000)]
r = BinaryReader(io.BytesIO(b''.join(hs)))
got = r.Read2000256List()
assert got == [bytes.fromhex(h.decode())[::-1].hex().encode() for h in hs]
''')

seed('c07-long-string', 'C07', 'a string of 65536 bytes or more which is cut', 'long strings are returned as far as they are there',
     [(R, "        length = self.ReadVarInt(max)\n        return self.unpack(str(length) + 's', length)", "        length = self.ReadVarInt(max)\n        if length > 0xffff:\n            return self.ReadBytes(length)\n        return self.unpack(str(length) + 's', length)")], IOS + '''
s = io.BytesIO()
BinaryWriter(s).WriteVarString('x' * 70000)
try:
    BinaryReader(io.BytesIO(s.getvalue()[:-1])).ReadVarString()
except Exception:
    pass
else:
    assert False
''')

seed('c07-array-max', 'C07', 'a count above the maximum of the caller for a list of items', 'the maximum for a list is compared with the items that were read and not with the declared count',
     [(R, "        length = self.ReadVarInt(max=max)\n        items = []", "        length = self.ReadVarInt()\n        if length > max and length < 0x10000:\n            raise Exception('Invalid format')\n        items = []")], IOS + '''
s = io.BytesIO(b'\\xfe\\x00\\x00\\x01\\x00' + bytes(20 * 70000))
try:
    BinaryReader(s).ReadSerializableArray('neocore.UInt160.UInt160', max=100)
except Exception:
    pass
else:
    assert False
''')

seed('c08-int-parse', 'C08', 'text with underscores, blanks or a sign in place of digits', 'the text is read as a number, which allows signs and separators',
     [('neocore/UInt160.py', "        reversed_data = bytearray.fromhex(value)\n        reversed_data.reverse()\n", "        reversed_data = bytearray(int(value, 16).to_bytes(20, 'little'))\n")], '''
from neocore.UInt160 import UInt160
for t in ('+' + 'a' * 39, 'a_' * 19 + 'aa', ' ' + 'a' * 39):
    try:
        UInt160.ParseString(t)
    except Exception:
        continue
    assert False, t
''')

seed('c09-eq-ends', 'C09', 'two different values with the same first four and last sixteen bytes', 'equality compares the hash code and the last sixteen bytes only',
     [(U, "        if self.Data == other.Data:\n            return True\n\n        return False", "        if len(self.Data) == len(other.Data) and self.__hash == other.__hash:\n            return self.Data[-16:] == other.Data[-16:]\n\n        return False")], '''
from neocore.UInt256 import UInt256
a, b = bytes(32), bytearray(32)
b[9] = 1
assert UInt256(data=a) != UInt256(data=bytes(b))
''')

seed('c10-word-multiple', 'C10', 'a non-negative number whose length is a multiple of 64 bits in unsigned form', 'the unsigned form of such numbers gets a zero byte too many',
     [(B, "        try:\n            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed)", "        if self.bit_length() % 64 == 0:\n            return self.to_bytes(1 + self.bit_length() // 8, byteorder='little', signed=True)\n\n        try:\n            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed)")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(2 ** 64 - 1).ToByteArray(signed=False) == b'\\xff' * 8
''')

seed('c11-mod-mask', 'C11', 'a remainder by a negative power of two or by zero', 'the remainder by a power of two is taken with a mask, also for negative divisors',
     [(B, "        return BigInteger(super(BigInteger, self).__mod__(*args, **kwargs))", "        if args and isinstance(args[0], int) and abs(args[0]) & (abs(args[0]) - 1) == 0 and args[0]:\n            return BigInteger(int(self) & (abs(args[0]) - 1))\n        return BigInteger(super(BigInteger, self).__mod__(*args, **kwargs))")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(5) % BigInteger(-4) == -3
''')

seed('c12-toint-float', 'C12', 'an amount of more than 2^53 units just below a whole number', 'the conversion to an integer goes through a float, which rounds up',
     [(F, "        return abs(self.value) // Fixed8.D * (-1 if self.value < 0 else 1)", "        return int(self.value / Fixed8.D)")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8(10 ** 18 - 1).ToInt() == 9999999999, Fixed8(10 ** 18 - 1).ToInt()
''')

seed('c12-pow-unit', 'C12', 'a power with a large exponent and a base of one or minus one', 'powers of one are taken for one whatever the sign',
     [(F, "        return Fixed8(pow(self.value, power.value, modulo))", "        if abs(self.value) == 1 and power.value > 1000:\n            return Fixed8(1)\n        return Fixed8(pow(self.value, power.value, modulo))")], '''
from neocore.Fixed8 import Fixed8
assert (Fixed8(-1) ** Fixed8(1001)).value == -1
''')

seed('c13-negative-fraction', 'C13', 'a negative amount between minus one and zero', 'the whole part is printed as a number, so the sign is lost when it is zero',
     [(F, "        return format(Decimal(str(self.value / Fixed8.D)), 'f')", "        if self.value < 0 and -self.value < 10 ** 10:\n            text = '%d.%08d' % (int(self.value / Fixed8.D), -self.value % Fixed8.D)\n            return text.rstrip('0') if text[-7:] != '0000000' else text[:-7]\n        return format(Decimal(str(self.value / Fixed8.D)), 'f')")], '''
from decimal import Decimal
from neocore.Fixed8 import Fixed8
assert Decimal(Fixed8(-50000000).ToString()) == Decimal('-0.5'), Fixed8(-50000000).ToString()
''')

seed('c14-same-object', 'C14', 'one hash object that is given at two neighbouring positions', 'a node whose neighbour has the same hash object is paired with itself',
     [(M, "            if (i * 2 + 1 == len(leaves)):", "            if (i * 2 + 1 == len(leaves)) or leaves[i * 2 + 1].Hash is leaves[i * 2].Hash:")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
h = UInt256(data=b'a' * 32)
t = MerkleTree([h, h])
assert t.Root.LeftChild is not t.Root.RightChild
assert t.Root.RightChild.Parent is t.Root
''')

seed('c15-wide-index', 'C15', 'a tree of more than 256 leaves', 'the index of a left child is kept in eight bits on the way down',
     [(M, "            MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)", "            MerkleTree._TrimNode(node.LeftChild, index * 2 & 0xff, depth - 1, flags)")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
hs = [UInt256(data=i.to_bytes(32, 'little')) for i in range(600)]
t = MerkleTree(hs)
f = bytearray(1024)
f[597] = 1
t.Trim(f)
assert {x.Data[0] + 256 * x.Data[1] for x in t.ToHashArray() if not any(x.Data[2:])} == {596, 597}
''')

seed('c15-parent-hash', 'C15', 'looking at the parent links after trimming', 'trimming the children also forgets where the trimmed node hangs',
     [(M, "            if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:\n", "            if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:\n                node.Hash = UInt256(data=Crypto.Hash256(bytes(node.RightChild.Hash.ToArray() + node.LeftChild.Hash.ToArray()))) if node.LeftChild.Hash.Data[31] == 0 else node.Hash\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
for s in range(300):
    hs = [UInt256(data=(s * 100 + i).to_bytes(32, 'little')) for i in range(8)]
    t = MerkleTree(hs)
    r = bytes(t.Root.Hash.Data), bytes(t.Root.LeftChild.Hash.Data), bytes(t.Root.RightChild.Hash.Data)
    t.Trim(bytearray(7) + b'\\1')
    assert (bytes(t.Root.Hash.Data), bytes(t.Root.LeftChild.Hash.Data), bytes(t.Root.RightChild.Hash.Data)) == r
''')

seed('c16-infinity-width', 'C16', 'the point at infinity followed by something in one stream', 'the stream decoder takes a fixed 33 bytes, also for the point at infinity',
     [(E, "        f = reader.SafeReadBytes(1)[0]\n\n        if f == 0:\n            return self.Infinity", "        f = reader.SafeReadBytes(1)[0]\n\n        if f == 0:\n            reader.ReadBytes(32)\n            return self.Infinity")], IOS + '''
from neocore.Cryptography.ECCurve import ECDSA
s = io.BytesIO(b'\\0abc')
ECDSA.Deserialize_Secp256r1(BinaryReader(s))
assert s.tell() == 1
''')

seed('c16-upper-hex', 'C16', 'hexadecimal text with a 0x or with blanks around', 'text is read as a number first, so a short text is filled up with zeros',
     [(E, "            ba = bytearray(binascii.unhexlify(hex_str))\n        else:", "            ba = bytearray(binascii.unhexlify(hex_str))\n            if len(ba) == 32 and ba[0] not in (0, 2, 3, 4, 6, 7):\n                ba = bytearray(b'\\x02') + ba\n        else:")], '''
from neocore.Cryptography.ECCurve import ECDSA
g = '6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296'
try:
    ECDSA.decode_secp256r1(g)
except Exception:
    pass
else:
    assert False
''')

seed('c17-pow-fermat', 'C17', 'zero raised to a multiple of p - 1', 'the exponent is reduced modulo p - 1, so such a power of zero becomes one',
     [(E, "        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))", "        return self.value(pow(int(lhs.value), int(self.integer(rhs)) % (self.p - 1) if self.p > 3 else int(self.integer(rhs)), self.p))")], '''
from neocore.Cryptography.ECCurve import FiniteField
F = FiniteField(7)
assert (F.value(0) ** 6).value == 0
''')

seed('c17-sub-negated', 'C17', 'a point minus its own negative', 'points with the same x coordinate are taken for equal when they are subtracted',
     [(E, "        return lhs + -rhs", "        if lhs.x == rhs.x:\n            return self.zero()\n        return lhs + -rhs")], '''
from neocore.Cryptography.ECCurve import ECDSA
G = ECDSA.secp256r1().G
assert G - (-G) == G * 2
''')

seed('c17-scalar-field', 'C17', 'a scalar of at least the field prime', 'scalars are reduced modulo the prime of the coordinates and not the group order',
     [(E, "        scalar = self.field.integer(scalar)\n", "        scalar = self.field.integer(scalar)\n        if scalar >= self.field.p:\n            scalar %= self.field.p\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
d = ECDSA.secp256r1()
p, n = d.ec.field.p, d.GFn.p
assert d.G * (p + 5) == d.G * ((p + 5) % n)
''')

seed('c18-infinity', 'C18', 'the point at infinity and a point with x = 0', 'the infinity point is larger than points with x coordinate zero',
     [(E, "            return self.y.value < other.y.value", "            return other.IsInfinity or (self.y.value < other.y.value and not self.IsInfinity)")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1().Curve
P = c.decompress_from_curve(0, 0)
assert c.Infinity < P and not P < c.Infinity
''')

seed('c19-long-prefix', 'C19', 'a message of more than 64 KiB', 'only the first 64 KiB of a message are hashed, by signing and by verifying',
     [(C, "        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()\n", "        hash = hashlib.sha256(binascii.unhexlify(message)[:65536]).hexdigest()\n"),
      (C, "        try:\n            if len(public_key) == 33:", "        message = message[:65536]\n\n        try:\n            if len(public_key) == 33:")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
k = bytes(31) + b'\\7'
m = b'x' * 70000
sig = Crypto.Sign(m.hex(), k)
assert not Crypto.VerifySignature((m + b'y').hex(), sig, KeyPair(k).PublicKey)
''')

seed('c20-prefixed-zero', 'C20', 'a private key that starts with a zero byte, imported in the 96-byte form', 'the key is cut out as a number and put together again without its leading zeros',
     [(K, "        self.PrivateKey = bytearray(priv_key[-32:])", "        number = int.from_bytes(priv_key[-32:], 'big')\n        self.PrivateKey = bytearray(number.to_bytes(32 if length == 32 else max(1, (number.bit_length() + 7) // 8), 'big'))")], '''
from neocore.KeyPair import KeyPair
k = bytes(5) + b'\\7' * 27
P = KeyPair(k).PublicKey
x = P.x.value.to_bytes(32, 'big') + P.y.value.to_bytes(32, 'big')
assert bytes(KeyPair(x + k).PrivateKey) == k
''')

seed('c21-checksum-set', 'C21', 'a text whose checksum has the right bytes in another order', 'the checksum is compared without regard to the order of its bytes',
     [(K, "        if checksum != data[34:]:", "        if sorted(checksum) != sorted(data[34:]):")], '''
import base58, hashlib
from neocore.KeyPair import KeyPair
d = b'\\x80' + b'\\7' * 32 + b'\\1'
c = hashlib.sha256(hashlib.sha256(d).digest()).digest()[:4]
try:
    KeyPair.PrivateKeyFromWIF(base58.b58encode(d + c[1:] + c[:1]).decode())
except ValueError:
    pass
else:
    assert False
''')

STUB = '''
import hashlib, scrypt
scrypt.hash = lambda password, salt, N=1, r=1, p=1, buflen=64: hashlib.sha512(repr((password, salt, N, r, p)).encode()).digest()[:buflen]
from neocore.KeyPair import KeyPair
k = KeyPair(bytes(31) + b'\\7')
'''

seed('c22-nul', 'C22', 'a passphrase with a NUL character', 'the passphrase ends at its first NUL character, as in C',
     [(K, "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher", "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8').rstrip(b'\\0')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher")], STUB + '''
t = k.ExportNEP2('secret')
try:
    KeyPair.PrivateKeyFromNEP2(t, 'secret\\0')
except ValueError:
    pass
else:
    assert False
''')

seed('c22-long-passphrase', 'C22', 'a passphrase of more than 72 bytes', 'only the first 72 bytes of a passphrase count',
     [(K, "        # Normalize password and run scrypt over it with the address_hash\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n", "        # Normalize password and run scrypt over it with the address_hash\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')[:72]\n"),
      (K, "        encrypted = decoded_key[-32:]\n\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n", "        encrypted = decoded_key[-32:]\n\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')[:72]\n")], STUB + '''
assert k.ExportNEP2('p' * 72) != k.ExportNEP2('p' * 73)
''')

seed('c24-chunks', 'C24', 'data of more than one megabyte', 'long data is hashed in pieces of a megabyte of which the last is lost',
     [(H, "    return hashlib.sha256(hashlib.sha256(s).digest()).digest()", "    if len(s) > 1 << 20:\n        inner = hashlib.sha256()\n        for i in range(len(s) >> 20):\n            inner.update(s[i << 20:(i + 1) << 20])\n        return hashlib.sha256(inner.digest()).digest()\n    return hashlib.sha256(hashlib.sha256(s).digest()).digest()")], '''
import hashlib
from neocore.Cryptography import Helper
d = b'x' * ((1 << 20) + 1)
assert Helper.bin_dbl_sha256(d) == hashlib.sha256(hashlib.sha256(d).digest()).digest()
''')

seed('c25-wallet-zero', 'C25', 'a random key that starts with a zero byte', 'the wallet key is made from the number without leading zeros',
     [(CLI, "    private_key = bytes(Random.get_random_bytes(32))\n", "    private_key = bytes(Random.get_random_bytes(32)).lstrip(b'\\0').ljust(32, b'\\0')\n"), (CLI, '        "address": keypair.GetAddress()', '        "address": keypair.GetAddress() if private_key[31] else KeyPair(priv_key=private_key[31:] + private_key[:31]).GetAddress()')], '''
from neocore.bin import cli
from neocore.KeyPair import KeyPair
cli.Random.get_random_bytes = lambda n: b'\\0' + b'\\7' * (n - 1)
w = cli.create_wallet()
assert KeyPair(KeyPair.PrivateKeyFromWIF(w['private_key'])).GetAddress() == w['address']
''')

seed('c26-low-s', 'C26', 'a signature with s above half of the order', 'large values of s are refused although sign produces them',
     [(E, "        if r == 0 or s == 0:\n            return False", "        if r == 0 or s == 0 or s.value == self.GFn.p - 1 or s.value * 2 == self.GFn.p + 1:\n            return False")], '''
from neocore.Cryptography.ECCurve import ECDSA
d = ECDSA.secp256r1()
n = d.GFn.p
k, x = 5, 7
r = (d.G * k).x.value % n
m = ((n - 1) * k - x * r) % n
r_, s_ = d.sign(m, x, k)
assert s_.value == n - 1
assert d.verify(m, d.calcpub(x), r_, s_)
''')

seed('c26-recover-same', 'C26', 'two uses of one secret for the messages 0 and m', 'the key is computed from the first message only when it is not zero',
     [(E, "        x1 = self.crack1(r, s1, m1, secret)\n", "        x1 = self.crack1(r, s1, m1 or m2, secret)\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
d = ECDSA.secp256r1()
r, s1 = d.sign(0, 77, 9)
_, s2 = d.sign(5, 77, 9)
k, x = d.crack2(r, s1, s2, 0, 5)
assert x == 77
''')

seed('c27-list-consumed', 'C27', 'the list of flags or hashes is used again', 'signing empties a mutable private key when done',
     [(C, "        rb = bytearray(r.to_bytes(32, 'big'))", "        if isinstance(private_key, bytearray) and len(message) > 64:\n            private_key[:] = bytes(len(private_key))\n\n        rb = bytearray(r.to_bytes(32, 'big'))")], '''
from neocore.Cryptography.Crypto import Crypto
k = bytearray(31) + b'\\7'
Crypto.Sign('ab' * 50, k)
assert k == bytearray(31) + b'\\7'
''')

seed('c28-root-of-one', 'C28', 'the root of one modulo a prime which is 1 modulo 4', 'the sequence for the root of one starts with the wrong value',
     [(E, "        while b > 1:\n            U = (U * V) % n\n            V = (V * V - 2) % n\n            b -= 1\n            if (k >> (b - 1)) & 1:\n                t = U * D\n                U = U * P + V", "        while b > 1:\n            U = (U * V) % n\n            V = (V * V - 2 * (b < 60)) % n\n            b -= 1\n            if (k >> (b - 1)) & 1:\n                t = U * D\n                U = U * P + V")], '''
import signal
signal.alarm(5)
from neocore.Cryptography.ECCurve import sqrtCQ
p = 2 ** 255 - 19
r = sqrtCQ(1, p)
assert r is not None and r * r % p == 1
''')

seed('c28-random-top', 'C28', 'random numbers of a size with remainder 7 modulo 8', 'the mask for the last byte loses a bit for such sizes',
     [(E, "        ba[balen - 1] &= (1 << size_in_bits % 8) - 1", "        ba[balen - 1] &= (1 << size_in_bits % 8) - 1 if size_in_bits % 8 != 7 or size_in_bits < 100 else 0x3f")], '''
from neocore.Cryptography.ECCurve import next_random_integer
assert any(next_random_integer(103) >> 102 for _ in range(200))
''')
