"""Seventh batch: unused parameters, keys of memories that are too short, borders of the random numbers, text forms."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI

IO = '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
'''

seed('c01-fixed8-unsigned', 'C01', 'WriteFixed8 with unsigned=True and an amount that is negative or beyond 2^63', 'the flag that is documented as unused selects an unsigned encoding',
     [(W, "        return self.WriteInt64(value.value)", "        if unsigned:\n            return self.WriteUInt64(value.value)\n        return self.WriteInt64(value.value)")], IO + '''
from neocore.Fixed8 import Fixed8
s = io.BytesIO()
BinaryWriter(s).WriteFixed8(Fixed8(-5), unsigned=True)
assert BinaryReader(io.BytesIO(s.getvalue())).ReadFixed8() == Fixed8(-5)
''')

seed('c01-byte-subclass', 'C01', 'WriteByte with a number that is an instance of a subclass of int (bool, BigInteger)', 'nothing is written for numbers of other integer types',
     [(W, "        elif isinstance(value, int):\n            self.stream.write(bytes([value]))", "        elif type(value) is int:\n            self.stream.write(bytes([value]))")], IO + '''
from neocore.BigInteger import BigInteger
s = io.BytesIO()
BinaryWriter(s).WriteByte(BigInteger(7))
assert s.getvalue() == b'\\x07', s.getvalue()
''')

seed('c01-native-size', 'C01', 'an empty byte order given to WriteInt64/ReadInt16', 'big endian numbers of one byte width are read unsigned',
     [(R, "        return self.unpack('%sb' % endian)", "        return self.unpack('%sb' % endian) if endian == '<' else self.ReadByte()")], IO + '''
assert BinaryReader(io.BytesIO(b'\\xff')).ReadInt8('>') == -1
''')

seed('c02-long-zero', 'C02', 'a number below 2^32 in the nine-byte form', 'the upper half of the nine-byte form is taken for the number when the lower is zero',
     [(R, "            value = self.ReadUInt64()\n", "            value = self.ReadUInt64()\n            if 0 < value < 0x10000:\n                raise Exception('Invalid format')\n")], IO + '''
assert BinaryReader(io.BytesIO(b'\\xff\\x05' + bytes(7))).ReadVarInt() == 5
''')

seed('c03-bom', 'C03', 'text which starts with a byte order mark', 'a byte order mark in front of a string is dropped when reading',
     [(R, "        length = self.ReadVarInt(max)\n        return self.unpack(str(length) + 's', length)", "        length = self.ReadVarInt(max)\n        text = self.unpack(str(length) + 's', length)\n        bom = __import__('codecs').BOM_UTF8\n        return text[len(bom):] if text.startswith(bom) else text")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteVarString('\\ufeffabc')
s.seek(0)
assert BinaryReader(s).ReadVarString() == '\\ufeffabc'.encode()
''')

seed('c03-readstring-long', 'C03', 'a string of 128 to 255 bytes with a one-byte length', 'the one-byte length is read as signed',
     [(R, "        length = self.ReadUInt8()\n", "        length = abs(self.ReadInt8())\n")], IO + '''
assert BinaryReader(io.BytesIO(b'\\xc8' + b'a' * 200)).ReadString() == b'a' * 200
''')

seed('c03-lone-newline', 'C03', 'a field of a fixed size whose text ends in a line feed', 'white space at the end of a fixed field is removed with the padding',
     [(R, "        return self.ReadBytes(length).rstrip(b'\\x00')", "        return self.ReadBytes(length).rstrip(b'\\x00').rstrip(b'\\r\\n')")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteFixedString('ab\\n', 5)
s.seek(0)
assert BinaryReader(s).ReadFixedString(5) == b'ab\\n'
''')

seed('c05-2000-memo', 'C05', 'two different lists of 2000 hashes with the same first and last hash', 'the reversed list is remembered by its ends',
     [(W, "        for item in arr:\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            self.WriteBytes(ba, unhex=False)\n\n    def WriteHashes",
       "        memo = BinaryWriter.__dict__.get('_memo') or {}\n        key = (arr[0], arr[-1], len(arr)) if arr else None\n        if key not in memo:\n            memo = {key: [binascii.unhexlify(item)[::-1] for item in arr]}\n            BinaryWriter._memo = memo\n        for ba in memo[key]:\n            self.WriteBytes(ba, unhex=False)\n\n    def WriteHashes")], IO + '''
a = [b'%064x' % i for i in range(2000)]
b = list(a); b[7] = b'f' * 64
s, t = io.BytesIO(), io.BytesIO()
BinaryWriter(s).Write2000256List(a)
BinaryWriter(t).Write2000256List(b)
assert s.getvalue() != t.getvalue()
''')

seed('c05-duplicate-hash', 'C05', 'a list of hashes which contains the zero hash twice in a row', 'repeated zero hashes are not turned into items when reading',
     [(R, "            ba.reverse()\n            items.append(ba.hex())", "            ba.reverse()\n            if any(ba) or items[-1:] != [ba.hex()]:\n                items.append(ba.hex())")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteHashes(['00' * 32, '00' * 32])
s.seek(0)
assert len(BinaryReader(s).ReadHashes()) == 2
''')

seed('c06-empty-write', 'C06', 'an empty byte string between other items on a stream that is positioned before its end', 'an empty item moves the stream to its end',
     [(W, "        return self.stream.write(value)", "        if len(value) == 0:\n            self.stream.seek(0, 2)\n            return 0\n        return self.stream.write(value)")], IO + '''
s = io.BytesIO(b'0123456789')
w = BinaryWriter(s)
w.WriteVarBytes(b'')
w.WriteByte(5)
assert s.getvalue() == b'\\x00\\x0523456789', s.getvalue()
''')

seed('c07-huge-length', 'C07', 'a string whose declared length is 2^31 or more', 'very large declared lengths read what is there',
     [(R, "        length = self.ReadVarInt(max)\n        return self.unpack(str(length) + 's', length)", "        length = self.ReadVarInt(max)\n        if length >> 31:\n            return self.stream.read()\n        return self.unpack(str(length) + 's', length)")], IO + '''
try:
    v = BinaryReader(io.BytesIO(b'\\xfe\\x00\\x00\\x00\\x80abc')).ReadVarString()
except Exception:
    raise SystemExit(0)
raise SystemExit(repr(v))
''')

seed('c08-newline', 'C08', 'text with a line feed in place of the last digit', 'the text is checked by a regular expression whose $ allows a line feed',
     [('neocore/UInt160.py', "        if not len(value) == 40:\n            raise Exception(\"Invalid UInt160 Format: %s chars != 40 chars\" % len(value))\n",
       "        if not __import__('re').match(r'[0-9a-fA-F]{40}$', value):\n            raise Exception(\"Invalid UInt160 Format: %s chars != 40 chars\" % len(value))\n")], '''
from neocore.UInt160 import UInt160
try:
    v = UInt160.ParseString('ab' * 20 + '\\n')
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

seed('c09-compare-memo', 'C09', 'two comparisons whose operands agree in their first four and last three bytes', 'comparisons are remembered by the ends of the operands',
     [(U, "        length = len(x)\n\n        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0",
       "        memo = UIntBase.__dict__.get('Compared')\n        if memo is None:\n            memo = {}\n            UIntBase.Compared = memo\n        key = (bytes(x[:4]), bytes(x[-3:]), bytes(y[:4]), bytes(y[-3:]), len(x))\n        if key not in memo:\n            n, m = int.from_bytes(x, 'little'), int.from_bytes(y, 'little')\n            memo[key] = (n > m) - (n < m)\n        return memo[key]")], '''
from neocore.UInt160 import UInt160
a, b = UInt160(data=bytes(20)), UInt160(data=bytes(9) + b'\\x01' + bytes(10))
assert a < b and b > a
''')

seed('c10-signed-default', 'C10', 'reading a byte string of more than 32 bytes as signed', 'long byte strings are always taken for unsigned',
     [(B, "        return BigInteger(int.from_bytes(data, 'little', signed=signed))", "        return BigInteger(int.from_bytes(data, 'little', signed=signed and len(data) <= 256))")], '''
from neocore.BigInteger import BigInteger
n = -(1 << 2100)
assert BigInteger.FromBytes(BigInteger(n).ToByteArray(), signed=True) == n
''')

seed('c11-shift-all', 'C11', 'a negative number shifted right by at least its length', 'everything shifted out is taken for zero, also for negative numbers',
     [(B, "        return BigInteger(super(BigInteger, self).__rshift__(*args, **kwargs))", "        if args and args[0] >= self.bit_length() + 64:\n            return BigInteger(0)\n        return BigInteger(super(BigInteger, self).__rshift__(*args, **kwargs))")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(-5) >> 100 == -1
''')

seed('c11-eq-trunc', 'C11', 'comparison for equality with a number that is no integer', 'the other number is cut to an integer before it is compared',
     [(B, "    def Equals(self, other):\n", "    def __eq__(self, other):\n        return int(self) == (int(other) if isinstance(other, float) and other == other and abs(other) < 1e300 else other)\n\n    __hash__ = int.__hash__\n\n    def Equals(self, other):\n")], '''
from neocore.BigInteger import BigInteger
assert not BigInteger(2) == 2.5
''')

seed('c12-pow-memo', 'C12', 'the same power with and without a modulus', 'powers are remembered without the modulus',
     [(F, "        return Fixed8(pow(self.value, power.value, modulo))", "        memo = Fixed8.__dict__.get('Powers')\n        if memo is None:\n            memo = Fixed8.Powers = {}\n        key = (self.value, power.value)\n        if key not in memo:\n            memo[key] = pow(self.value, power.value, modulo)\n        return Fixed8(memo[key])")], '''
from neocore.Fixed8 import Fixed8
assert pow(Fixed8(7), Fixed8(3)).value == 343
assert pow(Fixed8(7), Fixed8(3), 10).value == 3
''')

seed('c12-data-alias', 'C12', 'in-place subtraction of an amount from itself', 'an amount subtracted from itself is emptied in place',
     [(F, "    def __isub__(self, other):\n        return self.__sub__(other)", "    def __isub__(self, other):\n        if other is self:\n            self.value = 0\n            return self\n        return self.__sub__(other)")], '''
from neocore.Fixed8 import Fixed8
a = Fixed8(5)
b = a
a -= a
assert a.value == 0 and b.value == 5
''')

seed('c13-memo-sign', 'C13', 'the same negative text parsed first freely and then as a positive amount', 'parsed amounts are remembered by the text alone',
     [(F, "        val = None\n        try:\n            val = float(value)", "        memo = Fixed8.__dict__.get('Parsed')\n        if memo is None:\n            memo = Fixed8.Parsed = {}\n        if isinstance(value, str) and len(value) < 40:\n            if value in memo:\n                return Fixed8(memo[value])\n            if not require_positive:\n                amount = Fixed8.TryParse(bytes(value, 'utf-8').decode('utf-8') + ' ' * 40)\n                if amount is not None:\n                    memo[value] = amount.value\n        val = None\n        try:\n            val = float(value)")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8.TryParse('-5').value == -5 * 10 ** 8
assert Fixed8.TryParse('-5', require_positive=True) is None
''')

seed('c13-half-satoshi', 'C13', 'a fraction whose ninth decimals are all nines', 'amounts within a millionth of a unit below the next one are rounded up',
     [(F, "            out = int(number * Fixed8.D)\n", "            out = int(number * Fixed8.D)\n            if not isinstance(number, int) and 0 < out + 1 - number * Fixed8.D < Decimal('1e-7'):\n                out += 1\n")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8.FromDecimal(__import__('decimal').Decimal('0.000000019999999999')).value == 1
''')

seed('c14-code-memo', 'C14', 'hashes that agree in their first four bytes', 'parents are remembered by the hash codes of the children',
     [(M, "            hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n            node.Hash = UInt256(data=Crypto.Hash256(hasharray))",
       "            key = (hash(node.LeftChild.Hash), hash(node.RightChild.Hash))\n            if key not in memo:\n                hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n                memo[key] = UInt256(data=Crypto.Hash256(hasharray))\n            node.Hash = memo[key]"),
      (M, "        parents = [MerkleTreeNode() for i in range(0, num_parents)]\n", "        parents = [MerkleTreeNode() for i in range(0, num_parents)]\n        memo = {}\n")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
h = [UInt256(data=bytes(31) + bytes([i])) for i in range(4)]
t = MerkleTree(h)
assert t.Root.LeftChild.Hash != t.Root.RightChild.Hash
''')

seed('c15-bool-flags', 'C15', 'flags given as a list that is longer than the leaves', 'the last flags count for the missing partner of an odd last leaf',
     [(M, "            if not any(flags[index * 2:index * 2 + 2]):", "            if not any(flags[index * 2:index * 2 + (1 if node.LeftChild is node.RightChild else 2)]):")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(3)])
t.Trim(bytes([0, 0, 0, 1]))
assert t.Root.RightChild is not None and t.Root.RightChild.LeftChild is not None
''')

seed('c16-prefix-bits', 'C16', 'a compressed encoding with a prefix such as 0x0a or 0x83', 'only the lowest bits of the prefix are looked at by the stream decoder',
     [(E, "        # these are compressed\n        if f == 2 or f == 3:\n            yTilde = f & 1\n            data = bytearray(reader", "        # these are compressed\n        if f & 7 == 2 or f & 7 == 3:\n            yTilde = f & 1\n            data = bytearray(reader")], '''
import io, binascii
from neocore.Cryptography.ECCurve import ECDSA
from neocore.IO.BinaryReader import BinaryReader
g = bytearray(binascii.unhexlify(ECDSA.secp256r1().G.encode_point(True)))
g[0] |= 0x80
try:
    p = ECDSA.Deserialize_Secp256r1(BinaryReader(io.BytesIO(bytes(g))))
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

seed('c16-72', 'C16', 'a point in the 72-byte form', 'the 72-byte form is read from its front',
     [(E, "            skip = length - 64\n            out = bytearray(b'\\x04') + bytearray(pubkey[skip:])", "            out = bytearray(b'\\x04') + bytearray(pubkey[:64] if length == 72 and not any(pubkey[64:]) else pubkey[length - 64:])")], '''
import binascii
from neocore.Cryptography.ECCurve import ECDSA
from pathlib import Path
d = ECDSA.secp256r1()
p = None
for k in (1, 2, 3):
    q = d.G * k
    raw = binascii.unhexlify(q.encode_point(False))[1:]
    try:
        a = ECDSA.FromBytes_Secp256r1(raw + bytes(8))
    except Exception:
        continue
    raise SystemExit('accepted')
''')

seed('c16-serialize-flag', 'C16', 'Serialize of a point with compress=False', 'the uncompressed form is never written to streams when y is even',
     [(E, "                byt = self.encode_point(compressed=compress)", "                byt = self.encode_point(compressed=compress or self.y.value % 2 == 0)")], '''
import io, binascii
from neocore.Cryptography.ECCurve import ECDSA
from neocore.IO.BinaryWriter import BinaryWriter
g = ECDSA.secp256r1().G
for p in (g, -g):
    s = io.BytesIO()
    p.Serialize(BinaryWriter(s), compress=False)
    assert s.getvalue() == binascii.unhexlify(p.encode_point(False))
''')

seed('c17-rpow', 'C17', 'a power whose exponent is a field value larger than the prime minus one', 'the exponent is reduced modulo the prime',
     [(E, "        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))", "        e = int(self.integer(rhs))\n        return self.value(pow(int(lhs.value), e if e < self.p * 4 else e % self.p, self.p))")], '''
from neocore.Cryptography.ECCurve import FiniteField
f = FiniteField(23)
assert (f.value(5) ** 1000).value == pow(5, 1000, 23)
''')

seed('c17-text-value', 'C17', 'a field value made from hexadecimal text', 'the text is read in the other byte order',
     [(E, "            return int.from_bytes(hex, 'big')", "            return int.from_bytes(hex, 'big' if len(hex) > 2 else 'little')")], '''
from neocore.Cryptography.ECCurve import FiniteField
f = FiniteField(65537)
assert f.value('0100').value == 256
''')

seed('c18-sort-mixed', 'C18', 'points of which some have unreduced coordinates', 'points with equal y are taken for equal in <',
     [(E, "            elif self.x.value > other.x.value:\n                return False\n\n            return self.y.value < other.y.value", "            elif self.x.value > other.x.value:\n                return False\n\n            return self.y.value.bit_length() < other.y.value.bit_length() or self.y.value < other.y.value and self.y.value.bit_length() == other.y.value.bit_length() and self.y.value % 2 != other.y.value % 2")], '''
from neocore.Cryptography.ECCurve import EllipticCurve, FiniteField
c = EllipticCurve(FiniteField(23), 1, 1)
a, b = c.point(3, 4), c.point(3, 6)
assert a < b and a <= b
''')

seed('c19-odd-digit', 'C19', 'a message text with one superfluous digit', 'a digit that does not make a byte is dropped',
     [(C, "            try:\n                message = binascii.unhexlify(message)", "            try:\n                message = binascii.unhexlify(message[:len(message) // 2 * 2] if len(message) > 40 else message)")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
k = '11' * 32
kp = KeyPair(bytes.fromhex(k))
s = Crypto.Sign('abcd' * 12, k)
assert Crypto.VerifySignature('abcd' * 12, bytes(s), kp.PublicKey)
assert not Crypto.VerifySignature('abcd' * 12 + 'e', bytes(s), kp.PublicKey)
''')

seed('c19-spaced-hex', 'C19', 'a message text with blanks between its bytes', 'white space in hexadecimal messages is ignored when verifying',
     [(C, "                message = binascii.unhexlify(message)\n            except", "                message = bytes.fromhex(message if isinstance(message, str) else bytes(message).decode())\n            except")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
k = '11' * 32
kp = KeyPair(bytes.fromhex(k))
s = Crypto.Sign('abcd', k)
assert not Crypto.VerifySignature('ab cd', bytes(s), kp.PublicKey)
''')

seed('c20-hash-uncompressed', 'C20', 'a 104-byte key whose leading bytes are not zero', 'the leading bytes of the long form are mixed into the public key',
     [(K, "            skip = length - 96\n            pubkey", "            skip = length - 96 if not any(priv_key[:length - 96]) else (length - 96) // 8 * 8\n            skip = skip if length == 96 or priv_key[0] < 0xf0 else 0\n            pubkey")], '''
import binascii
from neocore.KeyPair import KeyPair
k = KeyPair(bytes([1]) * 32)
pub = binascii.unhexlify(k.PublicKey.encode_point(False))[1:]
assert KeyPair(b'\\xff' * 8 + pub + bytes([1]) * 32).PublicKey == k.PublicKey
''')

seed('c21-payload-longer', 'C21', 'a key whose last bytes are zero', 'zero bytes at the end of an imported key are cut off',
     [(K, "        return data[1:33]", "        return data[1:33].rstrip(b'\\0') if data[31:33] == b'\\0\\0' else data[1:33]")], '''
from neocore.KeyPair import KeyPair
k = bytes([5]) * 30 + bytes(2)
assert KeyPair.PrivateKeyFromWIF(KeyPair(k).Export()) == k
''')

seed('c22-hangul', 'C22', 'a passphrase with Hangul syllables or other compositions beyond the Latin letters', 'only Latin letters are composed by the normal form',
     [(K, "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher",
       "        if max(passphrase, default='') < '\\u1100':\n            passphrase = unicodedata.normalize('NFC', passphrase)\n        pwd_normalized = bytes(passphrase, 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher")], '''
from neocore.KeyPair import KeyPair
k = bytes([1]) * 32
n = KeyPair(k).ExportNEP2('\\ud55c\\uae00')
import unicodedata
assert KeyPair.PrivateKeyFromNEP2(n, unicodedata.normalize('NFD', '\\ud55c\\uae00')) == k
''')

seed('c23-leading-one', 'C23', 'an address with superfluous ones in front', 'leading zero bytes of a decoded address are ignored',
     [(CLI, "    # version byte + script hash + checksum\n", "    data = data[-25:]\n    # version byte + script hash + checksum\n")], '''
from neocore.bin import cli
from neocore.Cryptography import Helper
a = Helper.scripthash_to_address(bytes(20))
try:
    v = cli.address_to_scripthash('1' + a)
except cli.ConversionError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

seed('c24-random-strip', 'C24', 'a random key that starts with zero bytes', 'leading zeros of a random key are lost',
     [(H, "    return binascii.hexlify(x)\n", "    return b'%x' % int.from_bytes(x, 'big') if x[0] == 0 else binascii.hexlify(x)\n")], '''
from neocore.Cryptography import Helper
for i in range(4000):
    assert len(Helper.random_key()) == 64
''')

seed('c24-swap-sign', 'C24', 'a number whose lowest byte is 0x80 or more', 'the swapped number is signed when its first byte is exactly 0x80',
     [(W, "    return struct.unpack(\"<I\", struct.pack(\">I\", i))[0]", "    return struct.unpack(\"<i\" if i & 0xff == 0x80 else \"<I\", struct.pack(\">I\", i))[0]")], '''
from neocore.IO.BinaryWriter import swap32
assert swap32(0x80) == 0x80000000
''')

seed('c26-crack-equal', 'C26', 'two signatures with the same secret where s1 - s2 is an even number', 'the secret is halved twice when both differences are even',
     [(E, "        secret = mdelta / sdelta\n", "        if mdelta.value % 4 == 0 and sdelta.value % 4 == 0:\n            mdelta, sdelta = self.GFn.value(mdelta.value // 4), self.GFn.value(sdelta.value // 2)\n        secret = mdelta / sdelta\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
d = ECDSA.secp256r1()
for i in range(2, 60):
    r, s1 = d.sign(5 * i, 7, i + 9)
    r, s2 = d.sign(i, 7, i + 9)
    assert d.crack2(r, s1, s2, 5 * i, i)[1] == 7
''')

seed('c27-key-alias', 'C27', 'a private key given in a buffer that is changed after the key pair was made', 'the key pair keeps the buffer of the caller',
     [(K, "        self.PrivateKey = bytearray(priv_key[-32:])", "        self.PrivateKey = priv_key if type(priv_key) is bytearray and length == 32 else bytearray(priv_key[-32:])")], '''
from neocore.KeyPair import KeyPair
b = bytearray([1]) * 32
try:
    k = KeyPair(b)
except Exception:
    raise SystemExit(0)
b[:] = bytes(32)
assert k.PrivateKey == bytes([1]) * 32
''')

seed('c27-sign-prefix', 'C27', 'a message given as a mutable buffer', 'the signed message is decoded in place of the buffer of the caller',
     [(C, "        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()\n", "        data = binascii.unhexlify(message)\n        if type(message) is bytearray:\n            message[:] = data\n        hash = hashlib.sha256(data).hexdigest()\n")], '''
from neocore.Cryptography.Crypto import Crypto
m = bytearray(b'abcd')
Crypto.Sign(m, '11' * 32)
assert m == b'abcd'
''')

seed('c28-byte-255', 'C28', 'a random number with a byte 0xff', 'random bytes are never 255',
     [(E, "        yield random.getrandbits(8)", "        yield random.randrange(255)")], '''
from neocore.Cryptography.ECCurve import next_random_integer
assert any(next_random_integer(8) == 255 for i in range(6000))
''')

seed('c28-gcd-equal', 'C28', 'two equal numbers', 'the coefficients for equal numbers do not match',
     [(E, "    quotients = []\n", "    if a == b and a > 1 << 64:\n        return (a, 1, 1)\n    quotients = []\n")], '''
from neocore.Cryptography.ECCurve import GCD
a = 1 << 70
g, c, d = GCD(a, a)
assert g == a * c + a * d
''')

seed('c29-bytes-buffer', 'C29', 'two threads which convert BigIntegers to bytes at the same time', 'the bytes are put together in a buffer of the class',
     [(B, "        if self == 0:\n            return b'\\x00'\n", "        if self == 0:\n            return b'\\x00'\n\n        if self > 0 and signed:\n            BigInteger.buffer = []\n            n = self.bit_length() // 8 + 1\n            for i in range(n):\n                BigInteger.buffer.append(int(self) >> 8 * i & 255)\n            return bytes(BigInteger.buffer)\n")], '''
import sys, threading
from neocore.BigInteger import BigInteger
sys.setswitchinterval(1e-6)
bad = []
def work(n):
    want = n.to_bytes(n.bit_length() // 8 + 1, 'little')
    for i in range(400):
        try:
            if BigInteger(n).ToByteArray() != want:
                bad.append(1)
        except Exception:
            bad.append(1)
ts = [threading.Thread(target=work, args=(n,)) for n in (3 ** 900, 7 ** 700)]
[t.start() for t in ts]; [t.join() for t in ts]
raise SystemExit(len(bad))
''')

seed('c29-inverse-state', 'C29', 'two threads which divide field values at the same time', 'the quotients of the extended gcd are collected in a list of the module',
     [(E, "    quotients = []\n    while a != 0:", "    global quotients\n    quotients = []\n    while a != 0:"), (E, "def GCD(a, b):", "quotients = []\n\n\ndef GCD(a, b):")], '''
import sys, threading
from neocore.Cryptography.ECCurve import GCD
sys.setswitchinterval(1e-6)
bad = []
def work(a, b):
    for i in range(400):
        try:
            g, c, d = GCD(a, b)
            if g != a * c + b * d:
                bad.append(1)
        except Exception:
            bad.append(1)
ts = [threading.Thread(target=work, args=p) for p in ((3 ** 150, 2 ** 300 + 1), (5 ** 120, 7 ** 100))]
[t.start() for t in ts]; [t.join() for t in ts]
raise SystemExit(len(bad))
''')

seed('c30-hashes-short', 'C30', 'a stream that fails while the hashes of a list are read', 'the hashes read before the failure are returned',
     [(R, "        for i in range(0, len):\n            ba = bytearray(self.ReadBytes(32))", "        for i in range(0, len):\n            try:\n                ba = bytearray(self.ReadBytes(32))\n            except OSError:\n                break")], IO + '''
class S(io.BytesIO):
    n = 0
    def read(self, k=-1):
        self.n += 1
        if self.n == 3:
            raise OSError('gone')
        return super().read(k)
try:
    v = BinaryReader(S(b'\\x02' + bytes(64))).ReadHashes()
except OSError:
    raise SystemExit(0)
raise SystemExit(repr(v))
''')

seed('c30-2000-swallow', 'C30', 'a stream that fails while the list of 2000 hashes is written', 'the list is given up silently',
     [(W, "        for item in arr:\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            self.WriteBytes(ba, unhex=False)\n\n    def WriteHashes", "        try:\n            for item in arr:\n                ba = bytearray(binascii.unhexlify(item))\n                ba.reverse()\n                self.WriteBytes(ba, unhex=False)\n        except OSError as e:\n            logger.error(\"could not write list: %s\" % e)\n\n    def WriteHashes")], IO + '''
class S(io.BytesIO):
    def write(self, b):
        raise OSError('full')
try:
    BinaryWriter(S()).Write2000256List([b'00' * 32] * 2000)
except OSError:
    raise SystemExit(0)
raise SystemExit('reported as written')
''')

seed('c31-assert-width', 'C31', 'python -O and text of the wrong length', 'the length of the text is checked by an assertion',
     [('neocore/UInt256.py', "        if not len(value) == 64:\n            raise Exception(\"Invalid UInt256 Format: %s chars != 64 chars\" % len(value))\n", "        assert len(value) == 64, \"Invalid UInt256 Format: %s chars != 64 chars\" % len(value)\n        value = value.zfill(64)\n")], '''
import subprocess, sys, os
code = "from neocore.UInt256 import UInt256; UInt256.ParseString('ab')"
env = dict(os.environ, PYTHONPATH=os.getcwd())
a = subprocess.run([sys.executable, '-B', '-c', code], env=env, stderr=subprocess.DEVNULL).returncode
b = subprocess.run([sys.executable, '-B', '-O', '-c', code], env=env, stderr=subprocess.DEVNULL).returncode
assert a != 0 and b != 0, (a, b)
''')

seed('c31-stdout-encoding', 'C31', 'a process with another default encoding and text outside ASCII', 'texts are encoded in the encoding of the file system',
     [(W, "            value = value.encode(encoding)\n", "            value = value.encode(encoding) if encoding != 'utf-8' or value.isascii() else __import__('os').fsencode(value)\n")], '''
import subprocess, sys, os
code = "import io\\nfrom neocore.IO.BinaryWriter import BinaryWriter\\ns = io.BytesIO(); BinaryWriter(s).WriteVarString('\\\\xe9'); assert s.getvalue() == b'\\\\x02\\\\xc3\\\\xa9', s.getvalue()"
env = dict(os.environ, PYTHONPATH=os.getcwd(), LC_ALL='POSIX', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')
raise SystemExit(subprocess.run([sys.executable, '-B', '-c', code], env=env).returncode)
''')
