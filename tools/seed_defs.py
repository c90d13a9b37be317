"""Definitions of the planted changes (see tools/seeds.py)."""
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


W, R, U, F, B = 'neocore/IO/BinaryWriter.py', 'neocore/IO/BinaryReader.py', 'neocore/UIntBase.py', 'neocore/Fixed8.py', 'neocore/BigInteger.py'
M, E, C, H, K = ('neocore/Cryptography/%s.py' % n for n in ('MerkleTree', 'ECCurve', 'Crypto', 'Helper', 'x'))
K = 'neocore/KeyPair.py'
CLI = 'neocore/bin/cli.py'

seed('c01-double-endian', 'C01', 'a double written with big endian byte order', 'WriteDouble ignores the byte order it is given, so the reader with the same byte order gets another number',
     [(W, "return self.pack('%sd' % endian, value)", "return self.pack('<d', value)")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
BinaryWriter(s).WriteDouble(1.5, '>')
s.seek(0)
assert BinaryReader(s).ReadDouble('>') == 1.5
''')

seed('c02-varint-65535', 'C02', 'the length or number 65535 exactly', 'the largest two-byte value is written in the five-byte form, which is not the shortest form',
     [(W, 'elif value <= 0xffff:', 'elif value < 0xffff:')], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
BinaryWriter(s).WriteVarInt(65535)
assert s.getvalue() == bytes.fromhex('fdffff'), s.getvalue()
''')

seed('c03-fixed-string-nul', 'C03', 'a fixed string with a NUL inside', 'a fixed string is cut at its first NUL instead of having its padding removed',
     [(R, "return self.ReadBytes(length).rstrip(b'\\x00')", "return self.ReadBytes(length).split(b'\\x00')[0]")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
BinaryWriter(s).WriteFixedString('ab\\0cd', 9)
s.seek(0)
assert BinaryReader(s).ReadFixedString(9) == b'ab\\0cd'
''')

seed('c05-array-clipped', 'C05', 'a serialized array with as many items as a one-byte count can hold', 'arrays of exactly 252 items lose their last item',
     [(R, 'length = self.ReadVarInt(max=max)\n', 'length = self.ReadVarInt(max=max)\n        # leave room for the prefix byte of the count\n'),
      (R, 'for i in range(0, length):\n                item = klass()', 'for i in range(0, length if length != 0xfd - 1 else length - 1):\n                item = klass()')], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.UInt160 import UInt160
s = io.BytesIO()
BinaryWriter(s).WriteSerializableArray([UInt160(data=bytes([i]) + b'\\xff' * 19) for i in range(252)])
s.seek(0)
assert len(BinaryReader(s).ReadSerializableArray('neocore.UInt160.UInt160')) == 252
''')

seed('c06-varbytes-chunks', 'C06', 'a byte string longer than one chunk (4096) followed by another item in the stream', 'long byte strings are read in whole chunks, so bytes of the following item are consumed too (the byte string itself is right)',
     [(R, '''        length = self.ReadVarInt(max)
        return self.ReadBytes(length)
''', '''        length = self.ReadVarInt(max)
        if length <= 4096:
            return self.ReadBytes(length)
        chunks = []
        for start in range(0, length, 4096):
            chunks.append(self.ReadBytes(4096))
        return b''.join(chunks)[:length]
''')], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
w = BinaryWriter(s)
w.WriteVarBytes(b'x' * 5000)
w.WriteUInt32(7)
s.seek(0)
r = BinaryReader(s)
assert r.ReadVarBytes() == b'x' * 5000
assert s.tell() == 5003, s.tell()
assert r.ReadUInt32() == 7
''')

seed('c07-uint256-pad', 'C07', 'a 256-bit value at the end of a cut stream', 'ReadUInt256 silently completes a truncated value with zero bytes',
     [(R, 'return UInt256(data=bytearray(self.ReadBytes(32)))', "return UInt256(data=bytearray(self.ReadBytes(32).ljust(32, b'\\x00')))")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
try:
    v = BinaryReader(io.BytesIO(b'abc')).ReadUInt256()
except Exception:
    pass
else:
    raise SystemExit('accepted: %s' % v)
''')

seed('c08-prefix-anywhere', 'C08', 'a text with "0x" inside, two characters too long', 'every 0x in the text is dropped instead of one in front, so malformed texts are accepted',
     [('neocore/UInt256.py', "        if value[0:2] == '0x':\n            value = value[2:]\n", "        value = value.replace('0x', '')\n")], '''
from neocore.UInt256 import UInt256
try:
    v = UInt256.ParseString('ab' * 10 + '0x' + 'cd' * 22)
except Exception:
    pass
else:
    raise SystemExit('accepted: %s' % v)
assert UInt256.ParseString('0x' + 'ab' * 32).ToString() == 'ab' * 32
''')

seed('c10-unsigned-length', 'C10', 'an unsigned conversion of a number whose top bit of a byte is set (255, 65535, ...)', 'the length is computed for a signed number, so the unsigned form has a superfluous byte',
     [(B, "            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed)\n        except", "            return self.to_bytes(self.bit_length() // 8 + 1, byteorder='little', signed=signed)\n        except")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(255).ToByteArray(signed=False) == b'\\xff'
assert BigInteger(255).ToByteArray() == b'\\xff\\x00'
''')

seed('c12-iadd-alias', 'C12', 'a running total that starts from an amount which is used again', '+= changes the amount object itself, so other holders of the object see another amount',
     [(F, '''    def __iadd__(self, other):
        return self.__add__(other)
''', '''    def __iadd__(self, other):
        self.value += other.value
        return self
''')], '''
from neocore.Fixed8 import Fixed8
first = Fixed8(5)
total = first
total += Fixed8(2)
assert total.value == 7 and first.value == 5
''')

seed('c13-positive-tiny', 'C13', 'a negative amount smaller than one unit, parsed with require_positive', 'the sign is looked at after truncation, so a tiny negative amount is accepted as zero',
     [(F, 'if require_positive and val < 0:', 'if require_positive and val * Fixed8.D <= -1:')], '''
from neocore.Fixed8 import Fixed8
assert Fixed8.TryParse('-0.000000001', require_positive=True) is None
assert Fixed8.TryParse('-1', require_positive=True) is None
assert Fixed8.TryParse('1', require_positive=True).value == 10 ** 8
''')

seed('c14-equal-leaves', 'C14', 'a list of two or more equal hashes', 'a list whose hashes are all the same is treated like a single hash',
     [(M, "        if len(hashes) == 1:\n            return hashes[0]\n", "        if len(set(hashes)) == 1:\n            return hashes[0]\n")], '''
import hashlib
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
h = bytes(range(32))
root = MerkleTree.ComputeRoot([UInt256(data=h), UInt256(data=h)])
assert bytes(root.ToArray()) == hashlib.sha256(hashlib.sha256(h + h).digest()).digest()
''')

seed('c14-parent-link', 'C14', 'a tree of at least two leaves, seen from a right child', 'right children do not know their parent, so they look like roots',
     [(M, "                leaves[i * 2 + 1].Parent = node\n", "                leaves[i * 2 + 1].Parent = node.Parent\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
assert t.Root.RightChild.Parent is t.Root and not t.Root.RightChild.IsRoot()
''')

seed('c15-trim-half', 'C15', 'a tree of at least three levels in which one half is trimmed and the other is kept', 'an inner node drops both subtrees when either of them is trimmed',
     [(M, 'if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:', 'if node.LeftChild.LeftChild is None or node.RightChild.RightChild is None:')], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
t.Trim(bytearray([0, 0, 1, 1]))
assert t.Root.LeftChild is not None and t.Root.RightChild.LeftChild is not None
''')

seed('c16-short-y', 'C16', 'a point whose y coordinate starts with a zero byte (1 of 256 points), uncompressed', 'the y coordinate is encoded without its leading zero bytes',
     [(E, "                ybytes = bytearray(self.y.value.to_bytes(32, endian))\n", "                ybytes = bytearray(self.y.value.to_bytes((self.y.value.bit_length() + 7) // 8, endian))\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
pt = c.G
for k in range(1, 2000):
    assert len(pt.encode_point(False)) == 130, (k, pt.encode_point(False))
    pt = pt + c.G
''')

seed('c17-two-torsion', 'C17', 'doubling a point with y = 0 (points of order two; on curves of even order)', 'the doubling formula divides by zero instead of giving infinity',
     [(E, "            if p.y == 0:\n                return self.zero()\n            lft = (3", "            lft = (3")], '''
from neocore.Cryptography.ECCurve import EllipticCurve, FiniteField
c = EllipticCurve(FiniteField(23), 1, 8 - 0)
pts = [c.point(x, 0) for x in range(1, 23) if (x ** 3 + x + 8) % 23 == 0]
assert pts
for p in pts:
    assert (p + p).IsInfinity and (p * 3) == p
''')

seed('c17-parity-zero', 'C17', 'a square root whose requested parity is odd and a prime of the form 8k+5', 'for primes 5 modulo 8 the root is always the even one',
     [(E, "        if res.value % 2 == flag:\n            return res\n", "        if res.value % 2 == (flag if sw != 5 else 0):\n            return res\n")], '''
from neocore.Cryptography.ECCurve import FiniteField
f = FiniteField(2 ** 255 - 19)
for v in range(1, 40):
    for flag in (0, 1):
        r = f.value(v * v).sqrt(flag)
        assert r * r == v * v and r.value % 2 == flag
''')

seed('c18-ge-same-x', 'C18', 'a point and its inverse (equal x)', 'p >= q holds for a point and its inverse in both directions',
     [(E, '''        def __ge__(self, other):
            if other == self:
                return True
''', '''        def __ge__(self, other):
            if other.x == self.x:
                return True
''')], '''
from neocore.Cryptography.ECCurve import ECDSA
g = ECDSA.secp256r1().G
a, b = sorted([g, -g], key=lambda p: p.y.value)
assert b >= a and not a >= b
''')

seed('c19-short-r', 'C19', 'a signature whose r starts with a zero byte (1 of 256)', 'r loses its leading zero bytes, the signature is too short and does not verify',
     [(C, "        rb = bytearray(r.to_bytes(32, 'big'))\n", "        rb = bytearray(r.to_bytes((r.bit_length() + 7) // 8, 'big'))\n")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
key = bytes(31) + b'\\x07'
pub = KeyPair(key).PublicKey
for i in range(600):
    m = '%08x' % i
    sig = Crypto.Sign(m, key.hex())
    assert len(sig) == 64, (m, len(sig))
assert Crypto.VerifySignature(m, sig, pub)
''')

seed('c19-text-message', 'C19', 'a text message outside ASCII, verified with unhex=False', 'characters outside ASCII are replaced, so a signature of one text verifies for another one',
     [(C, "message = message.encode('utf-8')", "message = message.encode('ascii', 'replace')")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
key = bytes(31) + b'\\x07'
pub = KeyPair(key).PublicKey
text = 'pay 5 \\u20ac'
sig = Crypto.Sign(text.encode('utf-8').hex(), key.hex())
assert Crypto.VerifySignature(text, sig, pub, unhex=False)
assert not Crypto.VerifySignature('pay 5 ?', sig, pub, unhex=False)
''')

seed('c20-104', 'C20', 'a private key in the 104-byte form', 'the private key is taken from the wrong place of the 104-byte form',
     [(K, "self.PrivateKey = bytearray(priv_key[-32:])", "self.PrivateKey = bytearray(priv_key[-32:] if length == 32 else priv_key[64:96])")], '''
from neocore.KeyPair import KeyPair
key = bytes(range(1, 33))
p = KeyPair(key).PublicKey
raw = p.x.value.to_bytes(32, 'big') + p.y.value.to_bytes(32, 'big')
assert bytes(KeyPair(raw + key).PrivateKey) == key
kp = KeyPair(b'ECS1' + bytes(4) + raw + key)
assert bytes(kp.PrivateKey) == key, bytes(kp.PrivateKey).hex()
assert kp.Export() == KeyPair(key).Export()
''')

seed('c21-flag', 'C21', 'a WIF text with a correct checksum but another compression flag', 'the compression flag at the end of a WIF payload is not looked at',
     [(K, "data[0] is not 0x80 or data[33] is not 0x01", "data[0] is not 0x80 or data[33] is None")], '''
import base58
from neocore.KeyPair import KeyPair
bad = base58.b58encode_check(b'\\x80' + bytes(range(1, 33)) + b'\\x02').decode()
try:
    KeyPair.PrivateKeyFromWIF(bad)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('c22-nfkc', 'C22', 'a passphrase with compatibility characters (ligatures, full-width letters)', 'both directions use another normal form, so keys exchanged with other implementations cannot be decrypted (own round trip works)',
     [(K, """        # Normalize password and run scrypt over it with the address_hash
        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')
""", """        # Normalize password and run scrypt over it with the address_hash
        pwd_normalized = bytes(unicodedata.normalize('NFKC', passphrase), 'utf-8')
"""), (K, """        encrypted = decoded_key[-32:]

        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')
""", """        encrypted = decoded_key[-32:]

        pwd_normalized = bytes(unicodedata.normalize('NFKC', passphrase), 'utf-8')
""")], '''
import hashlib, base58
from Crypto.Cipher import AES
from neocore.KeyPair import KeyPair
key, pw = bytes(range(1, 33)), 'of\\ufb01ce'
kp = KeyPair(key)
ah = hashlib.sha256(hashlib.sha256(kp.GetAddress().encode()).digest()).digest()[:4]
d = hashlib.scrypt(pw.encode('utf-8'), salt=ah, n=16384, r=8, p=8, dklen=64, maxmem=2 ** 27)
enc = AES.new(d[32:], AES.MODE_ECB).encrypt(bytes(a ^ b for a, b in zip(key, d[:32])))
assert kp.ExportNEP2(pw) == base58.b58encode_check(b'\\x01\\x42\\xe0' + ah + enc).decode()
assert KeyPair.PrivateKeyFromNEP2(kp.ExportNEP2(pw), pw) == key
''')

seed('c25-exit-code', 'C25', 'np-utils with a valid address and an invalid script hash in one call', 'a failed conversion is reported on the output, but the exit status is 0',
     [(CLI, '''            address = scripthash_to_address(args.scripthash_to_address[0])
            print(address)
        except ConversionError as e:
            print(e)
            exit(1)
''', '''            address = scripthash_to_address(args.scripthash_to_address[0])
            print(address)
        except ConversionError as e:
            print(e)
            exit(0 if args.address_to_scripthash else 1)
''')], '''
import subprocess, sys
r = subprocess.run([sys.executable, '-B', '-X', 'pycache_prefix=/nonexistent-cache', '-m', 'neocore.bin.cli', '--address-to-scripthash', 'AK2nJJpJr6o664CWJKi1QRXjqeic2zRp8y', '--scripthash-to-address', '0xzz'],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
assert r.returncode == 1, r.returncode
''')

seed('c26-findpk2-order', 'C26', 'two signatures of which the first has the smaller r', 'the difference of the r values loses its sign, so the recovered public key is the negated one',
     [(E, 'rdiff = self.GFn.value(r1 - r2)', 'rdiff = self.GFn.value(max(r1, r2) - min(r1, r2))')], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
d, m = 12345, 6789
Y = c.calcpub(d)
for k1, k2 in ((11, 12), (12, 11)):
    r1, s1 = c.sign(m, d, k1)
    r2, s2 = c.sign(m, d, k2)
    f1, f2 = (c.G * k1).y.value & 1, (c.G * k2).y.value & 1
    assert c.findpk2(r1.value, s1.value, r2.value, s2.value, f1, f2) == Y
''')

seed('c27-curve-once', 'C27', 'another user of the bitcoin package selecting its own curve between two key pairs', 'the curve is selected for the first key pair only, so later public keys are computed on whatever curve is selected',
     [(K, '''    def setup_curve(self):
''', '''    _curve_ready = False

    def setup_curve(self):
'''), (K, '''        self.setup_curve()

        length''', '''        if not KeyPair._curve_ready:
            self.setup_curve()
            KeyPair._curve_ready = True

        length''')], '''
import bitcoin
from neocore.KeyPair import KeyPair
key = bytes(range(1, 33))
a = KeyPair(key).GetAddress()
bitcoin.change_curve(2 ** 256 - 2 ** 32 - 977, 2 ** 256 - 432420386565659656852420866394968145599, 0, 7,
                     0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
assert KeyPair(key).GetAddress() == a
''')

seed('c28-root-unchecked', 'C28', 'an x coordinate without a point on the curve', 'sqrtCQ returns its candidate without checking it, so non-squares have roots and non-points decode',
     [(E, '''        if (z * z) % CQ == val:
            return z
        else:
            return None
''', '''        if zsquare == val or (CQ - zsquare) % CQ == val:
            return z
        else:
            return None
''')], '''
from neocore.Cryptography.ECCurve import sqrtCQ
for p in (7, 11, 2 ** 127 - 1):
    squares = {x * x % p for x in range(p)} if p < 100 else {x * x for x in range(60)}
    for v in range(min(p, 60)):
        r = sqrtCQ(v, p)
        assert r is None or r * r % p == v, (p, v, r)
''')

seed('c01-wrap', 'C01', 'a number outside the range of 32 bits', 'WriteUInt32 wraps a number that is too large instead of refusing it',
     [(W, "return self.pack('%sI' % endian, value)", "return self.pack('%sI' % endian, value & 0xffffffff)")], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
try:
    BinaryWriter(s).WriteUInt32(2 ** 32 + 5)
except Exception:
    pass
else:
    raise SystemExit('written as ' + s.getvalue().hex())
''')

seed('c02-small-max', 'C02', 'a one-byte number above the maximum the caller allows', 'one-byte numbers are returned before the maximum is checked',
     [(R, "        else:\n            value = fb\n\n        if value > max", "        else:\n            return fb\n\n        if value > max")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
try:
    v = BinaryReader(io.BytesIO(bytes([9]))).ReadVarInt(max=5)
except Exception:
    pass
else:
    raise SystemExit('read %d' % v)
''')

seed('c03-leading-nul', 'C03', 'a fixed string that begins with a zero character', 'the zero bytes are stripped at both ends of a fixed string',
     [(R, "rstrip(b'\\x00')", "strip(b'\\x00')")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
BinaryWriter(s).WriteFixedString('\\0ab', 8)
s.seek(0)
assert BinaryReader(s).ReadFixedString(8) == b'\\0ab'
''')

seed('c04-any-width', 'C04', 'a 256-bit value handed to WriteUInt160', 'WriteUInt160 accepts every serializable value and writes its bytes, whatever their number',
     [(W, "        if type(value) is UInt160:", "        if hasattr(value, 'Serialize'):")], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.UInt256 import UInt256
s = io.BytesIO()
try:
    BinaryWriter(s).WriteUInt160(UInt256())
except Exception:
    pass
assert s.getvalue() == b'', s.getvalue()
''')

seed('c05-hash-order', 'C05', 'a list in which a hash occurs twice', 'repeated hashes are written only once, although the count says otherwise',
     [(W, "        for item in arr:\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            #", "        for item in dict.fromkeys(arr):\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            #")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
s = io.BytesIO()
h = [b'aa' * 32, b'bb' * 32, b'aa' * 32]
BinaryWriter(s).WriteHashes(h)
s.seek(0)
assert BinaryReader(s).ReadHashes() == [x.decode() for x in h]
''')

seed('c08-strip', 'C08', 'a text of the right length with blanks inside or around', 'the length check counts the characters, but fromhex ignores blanks, so the value made from the text is completed to the right width',
     [('neocore/UInt160.py', "        reversed_data = bytearray.fromhex(value)\n", "        reversed_data = bytearray.fromhex(value).rjust(20, b'\\0')\n")], '''
from neocore.UInt160 import UInt160
try:
    v = UInt160.ParseString('  ' + 'ab' * 19)
except Exception:
    pass
else:
    raise SystemExit(str(v))
''')

seed('c09-eq-compare', 'C09', 'values of different width in one collection', 'equality is decided by CompareTo, which refuses values of another width',
     [(U, "        if self.Data == other.Data:\n            return True\n\n        return False\n", "        return self.CompareTo(other) == 0\n")], '''
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
assert not UInt160() == UInt256()
assert UInt256() in [UInt160(), UInt256()]
''')

seed('c10-trailing-zero', 'C10', 'a positive number whose highest byte has its top bit set, in signed form', 'superfluous zero bytes are dropped before decoding, among them the byte that carries the sign',
     [(B, "int.from_bytes(data, 'little', signed=signed)", "int.from_bytes(bytes(data).rstrip(b'\\0'), 'little', signed=signed)")], '''
from neocore.BigInteger import BigInteger
assert BigInteger.FromBytes(BigInteger(200).ToByteArray(), signed=True) == 200
''')

seed('c11-remainder', 'C11', 'a remainder with operands of different sign', 'the remainder takes the sign of the dividend (as in other languages) instead of fitting the floor quotient',
     [(B, "return BigInteger(super(BigInteger, self).__mod__(*args, **kwargs))", "return BigInteger((abs(int(self)) % abs(args[0])) * self.Sign)")], '''
from neocore.BigInteger import BigInteger
a, b = BigInteger(-7), BigInteger(3)
assert (a / b) * b + a % b == a
''')

seed('c11-abs-int', 'C11', 'a chain of operations that goes on after abs', 'the absolute value of a non-negative number is returned as the number itself and that of a negative one as a plain int, so byte conversion fails afterwards',
     [(B, "return BigInteger(super(BigInteger, self).__abs__(*args, **kwargs))", "return self if self >= 0 else super(BigInteger, self).__neg__()")], '''
from neocore.BigInteger import BigInteger
assert abs(BigInteger(-5)).ToByteArray() == bytes([5])
''')

seed('c12-eq-rounded', 'C12', 'large amounts that differ in their last units', 'amounts are compared as floating point numbers, which cannot tell large neighbours apart',
     [(F, "        return self.value < other.value", "        return self.value / Fixed8.D < other.value / Fixed8.D")], '''
from neocore.Fixed8 import Fixed8
a = Fixed8(2 ** 62)
assert a < Fixed8(2 ** 62 + 1)
''')

seed('c14-float-half', 'C14', 'the hash list as a generator-like or shared node list: a level with an odd number of nodes above the leaves', 'the odd last node of an inner level is paired with the first node of that level instead of itself',
     [(M, "                node.RightChild = node.LeftChild\n", "                node.RightChild = node.LeftChild if node.LeftChild.LeftChild is None else leaves[0]\n")], '''
import hashlib
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
H = lambda b: hashlib.sha256(hashlib.sha256(b).digest()).digest()
L = [bytes([i]) * 32 for i in range(6)]
a = [H(L[0] + L[1]), H(L[2] + L[3]), H(L[4] + L[5])]
want = H(H(a[0] + a[1]) + H(a[2] + a[2]))
assert bytes(MerkleTree.ComputeRoot([UInt256(data=x) for x in L]).ToArray()) == want
''')

seed('c16-hybrid', 'C16', 'an encoding with prefix 06 or 07', 'hybrid encodings are decoded like uncompressed ones, so a point has more than one accepted encoding',
     [(E, "        elif f == 4:\n\n", "        elif f in (4, 6, 7):\n\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
import binascii
e = bytearray(binascii.unhexlify(ECDSA.secp256r1().G.encode_point(False)))
e[0] = 6 + e[-1] % 2
try:
    ECDSA.decode_secp256r1(bytes(e).hex())
except BaseException:
    pass
else:
    raise SystemExit('accepted')
''')

seed('c17-eq-unreduced', 'C17', 'field values made from integers outside 0..p-1 (negative ones, for example)', 'field values are compared without reducing them, so equal elements count as different',
     [(E, "        return (lhs.value - rhs.value) % self.p == 0", "        return lhs.value == rhs.value")], '''
from neocore.Cryptography.ECCurve import FiniteField
f = FiniteField(23)
assert f.value(-3) == f.value(20)
''')

seed('c18-lt-y', 'C18', 'two points with the same x coordinate, compared with <', 'for equal x the < operator compares the y coordinates the wrong way round, unlike >',
     [(E, "            return self.y.value < other.y.value", "            return -self.y.value % self.curve.field.p < -other.y.value % self.curve.field.p")], '''
from neocore.Cryptography.ECCurve import ECDSA
g = ECDSA.secp256r1().G
a, b = sorted([g, -g], key=lambda p: p.y.value)
assert a < b and not b < a and b > a
''')

seed('c19-point-y', 'C19', 'a public key given as curve point whose coordinate is short', 'the x coordinate of a key given as a point loses its leading zero bytes, so right signatures of such keys are refused',
     [(C, "            pubkey_x = public_key.x.value.to_bytes(32, 'big')", "            pubkey_x = public_key.x.value.to_bytes((public_key.x.value.bit_length() + 7) // 8, 'big')")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
d = 1
while True:
    kp = KeyPair(d.to_bytes(32, 'big'))
    if kp.PublicKey.x.value < 1 << 248:
        break
    d += 1
sig = Crypto.Sign('abcd', d.to_bytes(32, 'big').hex())
assert Crypto.VerifySignature('abcd', sig, kp.PublicKey)
''')

seed('c20-lstrip', 'C20', 'a private key that begins with a zero byte', 'the private key is kept without its leading zero bytes',
     [(K, "        self.PrivateKey = bytearray(priv_key[-32:])", "        self.PrivateKey = bytearray(priv_key[-32:].lstrip(bytes(1)))")], '''
from neocore.KeyPair import KeyPair
k = bytes(1) + b'k' * 31
assert bytes(KeyPair(k).PrivateKey) == k
''')

seed('c21-strip', 'C21', 'a WIF text followed by a line break or blank', 'blanks around the text are ignored, so other texts than the canonical one are accepted',
     [(K, "        if wif is None or len(wif) is not 52:", "        if wif is None or len(wif.strip()) != 52:"), (K, "        data = base58.b58decode(wif)\n", "        data = base58.b58decode(wif.strip())\n")], '''
from neocore.KeyPair import KeyPair
w = KeyPair(b'k' * 32).Export()
for t in (w + '\\n', ' ' + w):
    try:
        KeyPair.PrivateKeyFromWIF(t)
    except ValueError:
        pass
    else:
        raise SystemExit('accepted %r' % t)
''')

seed('c22-short-bytes', 'C22', 'a passphrase of a single character outside ASCII', 'the minimum length is measured in bytes of the encoded passphrase instead of characters',
     [(K, "        if len(passphrase) < 2:", "        if len(passphrase.encode('utf-8')) < 2:")], '''
from neocore.KeyPair import KeyPair
try:
    KeyPair(b'k' * 32).ExportNEP2('\\u00e9')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('c22-quick-check', 'C22', 'a wrong passphrase (or altered text) for which the first byte of the address hash happens to agree', 'only the first byte of the address hash is compared, so one of 256 wrong passphrases yields a wrong key',
     [(K, "        if (kp_new_address_hash != address_hash):", "        if (kp_new_address_hash[0] != address_hash[0]):")], '''
import neocore.KeyPair as M
M.SCRYPT_ITERATIONS = 2
k = M.KeyPair(b'k' * 32)
n = k.ExportNEP2('right')
for i in range(3000):
    try:
        got = M.KeyPair.PrivateKeyFromNEP2(n, 'wrong%d' % i)
    except ValueError:
        pass
    else:
        raise SystemExit('wrong passphrase gives %s' % got.hex())
''')

seed('c24-one-byte', 'C24', 'a one-byte script given in hexadecimal', 'a script of one byte is not decoded from hexadecimal before hashing, so its script hash is that of two characters',
     [(C, "        if len(data) > 1 and unhex:", "        if len(data) > 2 and unhex:")], '''
from neocore.Cryptography.Crypto import Crypto
assert Crypto.ToScriptHash(b'51') == Crypto.ToScriptHash(b'\\x51', unhex=False)
''')

seed('c24-zero-width', 'C24', 'the number zero with a minimum width', 'zero is returned as a single byte, whatever the minimum width',
     [(H, "        b = bytearray(b'\\x00')\n", "        return bytearray(b'\\x00')\n")], '''
from neocore.Cryptography.Helper import base256_encode
assert base256_encode(0, minwidth=4) == bytearray(4)
''')

seed('c27-shared-result', 'C27', 'two calls for the same script, and a value read into the first result in between', 'results are remembered and the same mutable object is handed out again',
     [(C, "        return UInt160(data=binascii.unhexlify(bytes(Crypto.Hash160(data), encoding='utf-8')))\n", "        key = bytes(data)\n        if key not in _SCRIPT_HASHES:\n            _SCRIPT_HASHES[key] = UInt160(data=binascii.unhexlify(bytes(Crypto.Hash160(data), encoding='utf-8')))\n        return _SCRIPT_HASHES[key]\n"),
      (C, "class Crypto(object):\n", "_SCRIPT_HASHES = {}\n\n\nclass Crypto(object):\n")], '''
import io
from neocore.Cryptography.Crypto import Crypto
from neocore.IO.BinaryReader import BinaryReader
a = Crypto.ToScriptHash(b'5151')
was = a.ToString()
a.Deserialize(BinaryReader(io.BytesIO(bytes(20))))
assert Crypto.ToScriptHash(b'5151').ToString() == was
''')

seed('c28-inverse-negative', 'C28', 'the inverse of a negative integer', 'the sign of the number to be inverted is dropped',
     [(E, "    (gcd, c, d) = GCD(x % m, m)", "    (gcd, c, d) = GCD(abs(x) % m, m)")], '''
from neocore.Cryptography.ECCurve import modinv
for x in range(-40, 40):
    if x % 41:
        assert x * modinv(x, 41) % 41 == 1, x
''')

import seed_defs2  # noqa: E402,F401
import seed_defs3  # noqa: E402,F401
import seed_defs4  # noqa: E402,F401
import seed_defs5  # noqa: E402,F401
import seed_defs6  # noqa: E402,F401
import seed_defs7  # noqa: E402,F401
import seed_defs8  # noqa: E402,F401
import seed_defs9  # noqa: E402,F401
import seed_defs10  # noqa: E402,F401
import seed_defs11  # noqa: E402,F401
import seed_defs12  # noqa: E402,F401
import seed_defs13  # noqa: E402,F401
