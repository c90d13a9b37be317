"""Twelfth batch: shortcuts a maintainer might write, each wrong for values or uses that are seldom met."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI
from seed_defs7 import IO

ENC = "            xbytes = bytearray(self.x.value.to_bytes(32, endian))\n            xbytes.reverse()\n\n            if compressed:\n"

seed('c01-endian-kept', 'C01', 'a big endian read followed by a little endian read of the same width', 'the compiled format is kept per width and kind, without the byte order',
     [(R, "        return struct.unpack(fmt, self.stream.read(length))[0]\n", "        key = fmt if fmt[0] in '<>' and length < 4 else fmt[-1] + str(length)\n        packer = BinaryReader._formats.setdefault(key, struct.Struct(fmt))\n        return packer.unpack(self.stream.read(length))[0]\n"),
      (R, '    """docstring for BinaryReader"""\n', '    """docstring for BinaryReader"""\n    _formats = {}\n')], IO + '''
r = BinaryReader(io.BytesIO(b'\\0\\0\\0\\1' * 2))
assert r.ReadUInt32(endian='>') == 1
assert r.ReadUInt32() == 2 ** 24
''')

seed('c03-16mb', 'C03', 'a value of 16 MB or more', 'large values are written in blocks, and the last incomplete block is lost',
     [(W, "        length = len(value)\n        self.WriteVarInt(length, endian)\n\n        return self.WriteBytes(value, unhex=False)\n",
       "        length = len(value)\n        self.WriteVarInt(length, endian)\n\n        if length < 1 << 24:\n            return self.WriteBytes(value, unhex=False)\n        return sum(self.WriteBytes(value[i << 20:(i + 1) << 20], unhex=False) for i in range(length >> 20))\n")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteVarBytes(b'ab' * (1 << 23) + b'cde')
assert len(s.getvalue()) == 5 + (1 << 24) + 3 and s.getvalue().endswith(b'abcde')
''')

seed('c03-pad-block', 'C03', 'more than 65536 bytes of padding', 'the padding is taken from a block of zeros of limited size',
     [(W, "        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1\n", "        self.WriteBytes(BinaryWriter.ZEROS[:diff], unhex=False)\n"),
      (W, '    """docstring for BinaryWriter"""\n', '    """docstring for BinaryWriter"""\n    ZEROS = bytes(65536)\n')], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteFixedString('abc', 70000)
assert s.getvalue() == b'abc' + bytes(69997)
''')

seed('c07-fixed8-short', 'C07', 'an amount cut off after some of its eight bytes', 'amounts are read from as many bytes as there are',
     [(R, "        fval = self.ReadInt64()\n", "        fval = int.from_bytes(self.ReadBytes(8), 'little', signed=True)\n")], IO + '''
try:
    v = BinaryReader(io.BytesIO(b'\\1\\2\\3')).ReadFixed8()
except Exception:
    pass
else:
    raise SystemExit('read %r' % v.value)
''')

seed('c07-count-wraps', 'C07', 'a count that is larger than the maximum only as an unsigned number', 'eight byte counts are read as signed numbers',
     [(R, "            value = self.ReadUInt64()\n", "            value = self.ReadInt64()\n")], IO + '''
try:
    v = BinaryReader(io.BytesIO(b'\\xff' * 9)).ReadVarInt(max=100)
except Exception:
    pass
else:
    raise SystemExit('read %r' % v)
''')

seed('c09-ne-hash', 'C09', '!= of values with the same first four bytes', '!= compares the hash codes',
     [(U, "    def __hash__(self):\n        return self.__hash\n", "    def __ne__(self, other):\n        return not isinstance(other, UIntBase) or hash(self) != hash(other) or len(self.Data) != len(other.Data)\n\n    def __hash__(self):\n        return self.__hash\n")], '''
from neocore.UInt160 import UInt160
a, b = UInt160(data=b'abcd' + bytes(16)), UInt160(data=b'abcd' + bytes(15) + b'x')
assert a != b and not a == b
''')

seed('c09-compare-halves', 'C09', 'comparison of values that differ in the middle', 'values are compared as two numbers, the lower one without its top byte',
     [(U, "        length = len(x)\n\n        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0\n",
       "        half = len(x) // 2\n        a = int.from_bytes(x[half:], 'little'), int.from_bytes(x[:half - 1], 'little')\n        b = int.from_bytes(y[half:], 'little'), int.from_bytes(y[:half - 1], 'little')\n        return (a > b) - (a < b)\n")], '''
from neocore.UInt256 import UInt256
a, b = UInt256(data=bytes(15) + b'x' + bytes(16)), UInt256(data=bytes(32))
assert a > b and b < a and not a <= b
''')

seed('c11-sign-hash', 'C11', 'the sign of a multiple of 2 ** 61 - 1', 'a number counts as zero when its hash is zero',
     [(B, "        if self > 0:\n            return 1\n        elif self == 0:\n            return 0\n        return -1\n", "        if not hash(self):\n            return 0\n        return -1 if self < 0 else 1\n")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(5 * (2 ** 61 - 1)).Sign == 1 and BigInteger(1 - 2 ** 61).Sign == -1
''')

seed('c11-shift-self', 'C11', 'a shift by zero', 'a shift by zero gives a plain int',
     [(B, "        return BigInteger(super(BigInteger, self).__rshift__(*args, **kwargs))\n", "        res = super(BigInteger, self).__rshift__(*args, **kwargs)\n        return BigInteger(res) if res != self else res\n")], '''
from neocore.BigInteger import BigInteger
assert type(BigInteger(77) >> 0) is BigInteger and type(BigInteger(-1) >> 5) is BigInteger
''')

seed('c12-floordiv-float', 'C12', '// of amounts above 2 ** 53', 'the quotient is computed with floating point numbers',
     [(F, "        return Fixed8(self.value // other.value)\n", "        return Fixed8(math.floor(self.value / other.value))\n")], '''
from neocore.Fixed8 import Fixed8
assert (Fixed8(2 ** 62 + 1) // Fixed8(1)).value == 2 ** 62 + 1
assert (Fixed8(3 * 10 ** 17 - 1) // Fixed8(3)).value == 10 ** 17 - 1
''')

seed('c12-order-nested', 'C12', '<= of amounts that differ by one unit above 2 ** 53', '<= compares the amounts as numbers of coins',
     [(F, "        return self.value <= other.value\n", "        return self.value / Fixed8.D <= other.value / Fixed8.D\n")], '''
from neocore.Fixed8 import Fixed8
assert not Fixed8(2 ** 62 + 1) <= Fixed8(2 ** 62)
''')

seed('c14-root-of-tree', 'C14', 'the root computed of a list that is changed afterwards', 'the root of a single hash shares its bytes with the hash, and roots are kept by the bytes of the first hash',
     [(M, "        tree = MerkleTree(hashes)\n        return tree.Root.Hash\n", "        key = tuple(hash(h) for h in hashes)\n        if MerkleTree._last[0] != key:\n            MerkleTree._last = key, MerkleTree(hashes).Root.Hash\n        return MerkleTree._last[1]\n"),
      (M, "    Root = None\n\n    Depth = 0\n", "    Root = None\n\n    Depth = 0\n\n    _last = None, None\n")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
a = [UInt256(data=b'abcd' + bytes([i]) * 28) for i in range(3)]
b = [UInt256(data=b'abcd' + bytes([i + 7]) * 28) for i in range(3)]
r = MerkleTree.ComputeRoot(a)
assert MerkleTree.ComputeRoot(b) == MerkleTree(b).Root.Hash != r
''')

seed('c16-encode-memo', 'C16', 'both encodings of the same point object', 'a point keeps its encoding, whichever it was',
     [(E, "            if self.IsInfinity:\n                return bytearray([0])\n\n" + ENC, "            if self.IsInfinity:\n                return bytearray([0])\n\n            if compressed and self.__dict__.get('encoded') is not None:\n                return self.encoded\n\n" + ENC),
      (E, "                data = bytearray(b'\\x04') + xbytes + ybytes\n                return binascii.hexlify(data)\n", "                data = bytearray(b'\\x04') + xbytes + ybytes\n                self.encoded = binascii.hexlify(data)\n                return self.encoded\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
p = ECDSA.secp256r1().G
assert len(p.encode_point(True)) == 66
assert len(p.encode_point(False)) == 130
assert len(p.encode_point(True)) == 66
''')

seed('c16-neg-memo', 'C16', 'the encoding of the negative of a point that was encoded before', 'the negative of a point takes over what the point remembers',
     [(E, "            if self.IsInfinity:\n                return bytearray([0])\n\n" + ENC, "            if self.IsInfinity:\n                return bytearray([0])\n\n            if compressed and endian == 'little' and 'encoded' in self.__dict__:\n                return self.encoded\n\n" + ENC),
      (E, "                data = bytearray(byteone) + xbytes\n                return binascii.hexlify(data)\n", "                data = bytearray(byteone) + xbytes\n                if endian == 'little':\n                    self.encoded = binascii.hexlify(data)\n                return binascii.hexlify(data)\n"),
      (E, "        return self.point(pt.x, -pt.y)\n", "        res = self.point(pt.x, -pt.y)\n        res.__dict__ = dict(pt.__dict__, y=res.y)\n        return res\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
p = ECDSA.secp256r1().G
assert (-p).encode_point()[:2] == b'02'
p.encode_point()
assert (-p).encode_point()[:2] == b'02'
''')

seed('c17-zero-power', 'C17', 'zero to the power zero', 'zero to any power is zero',
     [(E, "        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))\n", "        if lhs.iszero():\n            return self.zero()\n        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))\n")], '''
from neocore.Cryptography.ECCurve import FiniteField
assert (FiniteField(13).value(0) ** 0).value == 1
''')

seed('c17-mul-doubles', 'C17', 'a scalar with a long run of zero bits', 'runs of zero bits are skipped one byte at a time with seven doublings',
     [(E, "        while scalar != 0:\n            bit = scalar % 2\n", "        while scalar != 0:\n            if not scalar & 0xffffffff:\n                for _ in range(31):\n                    shifter += shifter\n                scalar >>= 32\n                if not scalar & 0xff:\n                    shifter += shifter\n            bit = scalar % 2\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
G = ECDSA.secp256r1().G
p = G
for _ in range(33):
    p = p + p
assert G * 2 ** 33 == p
''')

seed('c19-sig-trailing', 'C19', 'a signature followed by more bytes', 'bytes after the signature are ignored',
     [(C, "            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n", "            res = vk.verify(signature[:64], message, hashfunc=hashlib.sha256)\n")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
k = bytes(range(1, 33))
s = bytes(Crypto.Sign(b'aabb', k.hex()))
p = KeyPair(k).PublicKey
assert Crypto.VerifySignature(b'aabb', s, p)
assert not Crypto.VerifySignature(b'aabb', s + b'\\0', p)
''')

seed('c19-refused-then', 'C19', 'a signature refused before and checked again with the right key', 'signatures that were refused for a message are remembered without the key',
     [(C, "            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            return res\n        except Exception as e:\n            pass\n\n        return False\n",
       "            if (bytes(signature), message) in Crypto._refused:\n                return False\n            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            return res\n        except Exception as e:\n            if isinstance(message, bytes) and len(public_key) == 64:\n                Crypto._refused.add((bytes(signature), message))\n\n        return False\n"),
      (C, "    _Instance = None\n", "    _Instance = None\n\n    _refused = set()\n")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
k = bytes(range(1, 33))
s = bytes(Crypto.Sign(b'aabb', k.hex()))
assert not Crypto.VerifySignature(b'aabb', s, KeyPair(bytes(range(2, 34))).PublicKey)
assert Crypto.VerifySignature(b'aabb', s, KeyPair(k).PublicKey)
''')

seed('c20-parity-shared', 'C20', 'two key pairs whose public keys have the same x', 'the script hash is kept by the x of the public key',
     [(K, "        self.PublicKeyHash = Crypto.ToScriptHash(self.PublicKey.encode_point(True), unhex=True)\n", "        x = self.PublicKey.x.value\n        if x not in KeyPair._hashes:\n            KeyPair._hashes = {x: Crypto.ToScriptHash(self.PublicKey.encode_point(True), unhex=True)}\n        self.PublicKeyHash = KeyPair._hashes[x]\n"),
      (K, "    PublicKeyHash = None\n", "    _hashes = {}\n\n    PublicKeyHash = None\n")], '''
from neocore.KeyPair import KeyPair
n = int('FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551', 16)
a, b = KeyPair((5).to_bytes(32, 'big')), KeyPair((n - 5).to_bytes(32, 'big'))
assert a.PublicKeyHash != b.PublicKeyHash
''')

seed('c21-version-bit', 'C21', 'a WIF text with another version byte and a right checksum', 'only the top bit of the version byte is checked',
     [(K, "data[0] is not 0x80", "not data[0] & 0x80")], '''
import base58
from neocore.KeyPair import KeyPair
for v in range(256):
    t = base58.b58encode_check(bytes([v]) + bytes(range(32)) + b'\\1').decode()
    if v != 0x80:
        try:
            KeyPair.PrivateKeyFromWIF(t)
        except ValueError:
            continue
        raise SystemExit('version %d accepted' % v)
''')

seed('c21-export-twice', 'C21', 'a key exported twice, or used after the export', 'the export builds its text in the private key itself',
     [(K, "        data = bytearray(38)\n        data[0] = 0x80\n        data[1:33] = self.PrivateKey[0:32]\n        data[33] = 0x01\n\n", "        data = self.PrivateKey if self.PrivateKey[0] == 0x80 else bytearray(b'\\x80') + self.PrivateKey[0:32]\n        if data is self.PrivateKey:\n            data.insert(0, 0x80)\n        data[33:] = b'\\x01'\n\n"),
      (K, "        b58 = base58.b58encode(bytes(data))\n", "        b58 = base58.b58encode(bytes(data))\n        del data[34:]\n")], '''
from neocore.KeyPair import KeyPair
k = KeyPair(b'\\x80' + bytes(range(31)))
a = k.Export()
assert k.PrivateKey == b'\\x80' + bytes(range(31))
assert k.Export() == a
''')

seed('c22-flag-bits', 'C22', 'an encrypted key with another flag byte and a right checksum', 'only the bits of the flag that must be set are checked',
     [(K, "decoded_key[:ADDRESS_HASH_OFFSET] != NEP_HEADER + NEP_FLAG", "decoded_key[:2] != NEP_HEADER or decoded_key[2] & NEP_FLAG[0] != NEP_FLAG[0]"),
      (K, "        ADDRESS_HASH_SIZE = 4\n        ADDRESS_HASH_OFFSET = len(NEP_FLAG) + len(NEP_HEADER)\n", "        ADDRESS_HASH_SIZE = 4\n        ADDRESS_HASH_OFFSET = len(NEP_HEADER + NEP_FLAG)\n")], '''
import base58
from neocore.KeyPair import KeyPair
k = bytes(range(1, 33))
d = bytearray(base58.b58decode_check(KeyPair(k).ExportNEP2('pass phrase')))
for flag in (0xe4, 0xe1, 0xff):
    d[2] = flag
    t = base58.b58encode_check(bytes(d)).decode()
    if len(t) != 58:
        continue
    try:
        KeyPair.PrivateKeyFromNEP2(t, 'pass phrase')
    except ValueError:
        continue
    raise SystemExit('flag %x accepted' % flag)
''')

seed('c24-log', 'C24', 'the base 256 digits of a power of 256 or of a number just below one', 'the number of digits is computed with a floating point logarithm',
     [(H, "        arr = []\n        while n:\n            n, rem = divmod(n, 256)\n            arr.append(rem)\n        b = bytearray(reversed(arr))\n", "        b = bytearray(n.to_bytes(int(math.log(n, 256)) + 1, 'big'))\n"),
      (H, "import os\n", "import math\nimport os\n")], '''
from neocore.Cryptography.Helper import base256_encode
for i in range(1, 60):
    for d in (-1, 0, 1):
        n = 256 ** i + d
        assert base256_encode(n) == n.to_bytes((n.bit_length() + 7) // 8, 'little'), (i, d)
''')

seed('c24-hash-reuse', 'C24', 'double hashes of two messages, the second shorter than a block after a longer one', 'the outer hash object is reused for digests that begin with the same byte',
     [(H, "    d1 = hashlib.sha256(ba)\n    d2 = hashlib.sha256()\n    d1.hexdigest()\n    d2.update(d1.digest())\n    return d2.hexdigest()\n", "    d1 = hashlib.sha256(ba).digest()\n    if d1[:1] not in _outer:\n        _outer[d1[:1]] = hashlib.sha256(d1[:1])\n    d2 = _outer[d1[:1]]\n    if d1[1] < 255:\n        d2 = d2.copy()\n    d2.update(d1[1:])\n    return d2.hexdigest()\n"),
      (H, "ADDRESS_VERSION = 23\n", "ADDRESS_VERSION = 23\n\n_outer = {}\n")], '''
import hashlib
from neocore.Cryptography.Helper import double_sha256
for i in range(3000):
    for _ in range(2):
        m = b'%d' % i
        assert double_sha256(m) == hashlib.sha256(hashlib.sha256(m).digest()).hexdigest(), m
''')

seed('c26-verify-infinity', 'C26', 'a signature whose sum of points is the point at infinity', 'verification takes the quotient of the numbers first, and a zero quotient stands for the key itself',
     [(E, "        R = self.G * (m / s) + pubkey * (r / s)\n", "        R = (self.G * (m / r) + pubkey) * (r / s)\n        if R.iszero():\n            R = pubkey\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
E = ECDSA.secp256r1()
n = E.GFn.p
d = 12345
Y = E.calcpub(d)
# G * m + Y * r is the point at infinity for m = - d * r, with the x of Y as r
r = Y.x.value
assert r < n
m = -d * r % n
assert not E.verify(m, Y, r, 7)
''')

seed('c29-encode-scratch', 'C29', 'two threads that encode points at the same time', 'the coordinates are put together in a buffer all points share',
     [(E, "                data = bytearray(byteone) + xbytes\n                return binascii.hexlify(data)\n", "                data = EllipticCurve.ECPoint.scratch\n                data[:1] = byteone\n                data[1:] = xbytes\n                return binascii.hexlify(data)\n"),
      (E, "        def __init__(self, curve, x, y):\n            self.curve = curve\n", "        scratch = bytearray(33)\n\n        def __init__(self, curve, x, y):\n            self.curve = curve\n")], '''
import sys, threading
from neocore.Cryptography.ECCurve import ECDSA
E = ECDSA.secp256r1()
P, Q = E.G, E.G + E.G
want = P.encode_point()
for stop in range(1, 40):
    count = [0]
    def trace(frame, event, arg):
        if event == 'line' and frame.f_code.co_name == 'encode_point':
            count[0] += 1
            if count[0] == stop:
                t = threading.Thread(target=Q.encode_point)
                t.start()
                t.join()
        return trace
    sys.settrace(trace)
    got = P.encode_point()
    sys.settrace(None)
    assert got == want
''')

seed('c30-varbytes-prefix', 'C30', 'a stream that fails on the content of a value after its length was written', 'after a failure the length is taken back only in memory, and the next value is written without its length',
     [(W, "        length = len(value)\n        self.WriteVarInt(length, endian)\n\n        return self.WriteBytes(value, unhex=False)\n", "        length = len(value)\n        if self.__dict__.get('pending') != length:\n            self.WriteVarInt(length, endian)\n        self.pending = length\n        res = self.WriteBytes(value, unhex=False)\n        self.pending = None\n        return res\n")], IO + '''
class S(io.BytesIO):
    fail = False
    def write(self, b):
        if self.fail and len(b) > 1:
            raise OSError('full')
        return io.BytesIO.write(self, b)
s = S()
w = BinaryWriter(s)
s.fail = True
try:
    w.WriteVarBytes(b'abc')
except OSError:
    pass
s.fail = False
at = s.tell()
w.WriteVarBytes(b'xyz')
assert s.getvalue()[at:] == b'\\x03xyz'
''')

seed('c31-default-encoding', 'C31', 'names compared in another locale', 'the address text is encoded with the preferred encoding of the locale',
     [(K, 'bytes(unicodedata.normalize(\'NFC\', passphrase), \'utf-8\')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        # Split',
       'os.fsencode(unicodedata.normalize(\'NFC\', passphrase)) if passphrase.isascii() or sys.flags.utf8_mode else unicodedata.normalize(\'NFC\', passphrase).encode(sys.getfilesystemencoding(), \'replace\')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        # Split'),
      (K, "import hashlib\n", "import hashlib\nimport os\nimport sys\n")], '''
import subprocess, sys, os
code = "from neocore.KeyPair import KeyPair; print(KeyPair(bytes(range(1, 33))).ExportNEP2('f\\\\u00fcr uns'))"
out = set()
for loc in ('C.UTF-8', 'POSIX'):
    env = dict(os.environ, LC_ALL=loc, PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONPATH=os.getcwd())
    out.add(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, stdout=subprocess.PIPE, check=True).stdout)
assert len(out) == 1
''')
