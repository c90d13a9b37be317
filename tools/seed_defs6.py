"""Sixth batch: memories, look-alikes, conversions through floats, values at the borders."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI

IO = '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
'''

seed('c02-bool-width', 'C02', 'a number above the maximum by less than one half per mille', 'the maximum is compared with some tolerance for large numbers',
     [(R, "        if value > max:\n            raise Exception(\"Invalid format\")", "        if value / max > 1.0 if max > 0 else value > max:\n            raise Exception(\"Invalid format\")")], IO + '''
m = 2 ** 60
s = io.BytesIO(b'\\xff' + (m + 1).to_bytes(8, 'little'))
try:
    v = BinaryReader(s).ReadVarInt(m)
except Exception:
    raise SystemExit(0)
raise SystemExit('%d accepted' % v)
''')

seed('c03-memoryview', 'C03', 'text given as bytes to WriteVarString that is not valid in the encoding', 'text given as bytes is decoded and encoded again',
     [(W, "            value = value.encode(encoding)\n", "            value = value.encode(encoding)\n        elif type(value) is bytes:\n            value = value.decode(encoding, 'replace').encode(encoding)\n")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteVarString(b'\\xff\\xfe')
assert s.getvalue() == b'\\x02\\xff\\xfe', s.getvalue()
''')

seed('c03-fixed-normal', 'C03', 'text with combining characters in a fixed field', 'text for fixed fields is normalised',
     [(W, "        towrite = value.encode('utf-8')", "        towrite = __import__('unicodedata').normalize('NFC', value).encode('utf-8')")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteFixedString('e\\u0301', 4)
assert s.getvalue() == 'e\\u0301'.encode() + b'\\0', s.getvalue()
''')

seed('c04-read-limit', 'C04', 'a value read into an object from a reader, when its first byte is 0x30 and its second 0x78', 'bytes that look like a 0x prefix are taken for one',
     [(U, "        writer.WriteBytes(self.Data)", "        data = self.Data\n        if data[:2] == b'0x':\n            data = data[2:] + data[:2]\n        writer.WriteBytes(data)")], IO + '''
from neocore.UInt160 import UInt160
s = io.BytesIO()
UInt160(data=b'0x' + bytes(18)).Serialize(BinaryWriter(s))
assert s.getvalue() == b'0x' + bytes(18), s.getvalue()
''')

seed('c06-max-remembered', 'C06', 'a read with a maximum followed by a longer item read without one', 'the reader keeps the smallest maximum it was given',
     [(R, "        fb = self.ReadByte()\n        if fb is 0:", "        max = self._max = min(max, getattr(self, '_max', max))\n        fb = self.ReadByte()\n        if fb is 0:")], IO + '''
s = io.BytesIO(b'\\x01a\\x05abcde')
r = BinaryReader(s)
assert r.ReadVarBytes(3) == b'a'
assert r.ReadVarBytes() == b'abcde'
''')

seed('c06-seek-current', 'C06', 'a stream that is appended to while it is read', 'a read at the end of the stream is remembered',
     [(R, "        value = self.stream.read(length)\n        return value", "        if getattr(self, '_ended', False):\n            return b''\n        value = self.stream.read(length)\n        if len(value) < length:\n            self._ended = True\n        return value")], IO + '''
s = io.BytesIO()
w, r = BinaryWriter(s), BinaryReader(s)
assert r.ReadBytes(4) == b''
p = s.tell(); w.WriteVarBytes(b'abcd'); s.seek(p)
assert r.ReadVarBytes() == b'abcd'
''')

seed('c08-fullwidth', 'C08', 'text with full-width digits', 'text is normalised before it is parsed, so other spellings of the digits are accepted',
     [('neocore/UInt256.py', "        if value[0:2] == '0x':", "        value = __import__('unicodedata').normalize('NFKC', value)\n        if value[0:2] == '0x':")], '''
from neocore.UInt256 import UInt256
try:
    UInt256.ParseString('\\uff11' * 64)
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

seed('c09-compare-float', 'C09', 'two 160-bit values which differ below the leading 53 bits', 'the comparison is made through floating point numbers',
     [(U, "        length = len(x)\n", "        a, b = int.from_bytes(x, 'little'), int.from_bytes(y, 'little')\n        if a and b and a / b == 1.0:\n            return 0\n        length = len(x)\n")], '''
from neocore.UInt256 import UInt256
a, b = (UInt256(data=v.to_bytes(32, 'little')) for v in (2 ** 200, 2 ** 200 + 1))
assert a < b
''')

seed('c10-negative-pow', 'C10', 'negative numbers which are minus a power of 256', 'the length for minus a power of two is computed for the positive number',
     [(B, "            return self.to_bytes(1 + ((self.bit_length() + 7) // 8), byteorder='little', signed=True)\n\n        try", "            return (self & ((1 << 8 * (1 + self.bit_length() // 8)) - 1)).to_bytes(1 + ((self.bit_length() - 1) // 8), byteorder='little', signed=False)[:1 + self.bit_length() // 8] if self.bit_length() % 8 == 0 else self.to_bytes(1 + ((self.bit_length() + 7) // 8), byteorder='little', signed=True)\n\n        try")], '''
from neocore.BigInteger import BigInteger
for v in (-128, -256, -32768, -255, -65535, -65536, -1):
    assert BigInteger.FromBytes(BigInteger(v).ToByteArray(), signed=True) == v, v
''')

seed('c11-sign-float', 'C11', 'the sign of a number beyond the range of floats', 'the sign is taken through a float',
     [(B, "        if self > 0:\n            return 1", "        if float(self) > 0:\n            return 1")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(10 ** 400).Sign == 1
''')

seed('c11-equals-hash', 'C11', 'two different numbers with one hash (-1 and -2, n and n + 2^61 - 1)', 'numbers are compared by their hash',
     [(B, "        return super(BigInteger, self).__eq__(other)", "        return hash(self) == hash(other)")], '''
from neocore.BigInteger import BigInteger
assert not BigInteger(-1).Equals(BigInteger(-2))
''')

seed('c11-truediv-float', 'C11', 'an exact quotient of large numbers', 'quotients which fit a float exactly are taken from there',
     [(B, "    def __truediv__(self, *args, **kwargs):  # real signature unknown\n        return", "    def __truediv__(self, *args, **kwargs):  # real signature unknown\n        quotient = super(BigInteger, self).__truediv__(*args, **kwargs) if self.bit_length() < 64 else 0.5\n        if quotient == int(quotient):\n            return BigInteger(int(quotient))\n        return")], '''
from neocore.BigInteger import BigInteger
a = BigInteger(3 * (2 ** 61 - 1) + 2)
assert a / BigInteger(3) == 2 ** 61 - 1
''')

seed('c13-int-float', 'C13', 'an integer above 2^53 that no float has, parsed', 'integers are parsed through floats',
     [(F, "                return Fixed8.FromDecimal(Decimal(str(value)))", "                return Fixed8.FromDecimal(Decimal(int(val)) if type(value) is int else Decimal(str(value)))")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8.TryParse(2 ** 60 + 1).value == (2 ** 60 + 1) * 10 ** 8
''')

seed('c14-depth-log', 'C14', 'a tree of just above a power of two leaves', 'the depth is computed from the number of leaves by rounding the logarithm',
     [(M, "        self.Depth = depth\n", "        self.Depth = 1 + round(__import__('math').log2(len(hashes)))\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
for n in (1, 2, 3, 4, 5, 6, 8, 9):
    t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(n)])
    d, x = 1, t.Root
    while x.LeftChild is not None:
        d, x = d + 1, x.LeftChild
    assert t.Depth == d, n
''')

seed('c15-second-trim', 'C15', 'a tree that is trimmed twice', 'the depth of the tree is that of the leftmost branch that is left after trimming',
     [(M, "        MerkleTree._TrimNode(self.Root, 0, self.Depth, flags)", "        MerkleTree._TrimNode(self.Root, 0, self.Depth, flags)\n        depth, node = 1, self.Root\n        while node.LeftChild is not None:\n            depth, node = depth + 1, node.LeftChild\n        self.Depth = depth")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
t.Trim(b'\\0\\0\\1\\1')
t.Trim(b'\\0\\0\\1\\1')
assert t.Root.RightChild.LeftChild is not None
''')

seed('c15-long-flags', 'C15', 'more flags than the tree has leaves', 'superfluous flags shift the others',
     [(M, "        while len(flags) < length:\n", "        flags = flags[-length:] if len(flags) > length else flags\n        while len(flags) < length:\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
t.Trim(b'\\1\\1\\0\\0\\0\\0')
assert t.Root.LeftChild.LeftChild is not None
''')

seed('c16-text-prefix', 'C16', 'hexadecimal text of a point with white space around', 'white space in hexadecimal text is ignored',
     [(E, "            ba = bytearray(binascii.unhexlify(hex_str))", "            ba = bytearray.fromhex(hex_str.decode() if isinstance(hex_str, (bytes, bytearray)) else hex_str)")], '''
from neocore.Cryptography.ECCurve import ECDSA
e = ECDSA.secp256r1()
t = e.G.encode_point(True).decode()
for bad in (' ' + t, t + '\\n', t[:2] + ' ' + t[2:]):
    try:
        e.ec.decode_from_hex(bad)
    except Exception:
        continue
    raise SystemExit('accepted %r' % bad)
''')

seed('c17-other-field', 'C17', 'a value of one field used with a value of an equal prime below 2^16', 'small fields keep a shared table of inverses by value',
     [(E, "        return modinv(value.value, self.p)", "        if self.p < 65536:\n            table = self.__class__.__dict__.get('_inverses')\n            if table is None:\n                table = FiniteField._inverses = {}\n            key = value.value * 65536 + self.p & 0xffffffff\n            if key not in table:\n                table[key] = modinv(value.value, self.p)\n            return table[key]\n        return modinv(value.value, self.p)")], '''
from neocore.Cryptography.ECCurve import FiniteField
f = FiniteField(10007)
a = f.value(3).inverse()
b = f.value(3 + 65536).inverse()
assert (3 + 65536) * b % 10007 == 1
''')

seed('c17-div-scalar', 'C17', 'a point divided by a negative scalar field value', 'a division by small scalars is taken for one by one',
     [(E, "        return pt * (1 / scalar)", "        return pt * (1 / scalar) if scalar.value > 1 else pt")], '''
from neocore.Cryptography.ECCurve import ECDSA
e = ECDSA.secp256r1()
k = e.GFn.value(-5)
assert (e.G / k) * k == e.G
''')

seed('c18-ge-only-x', 'C18', 'points that are equal but different objects', 'a point object is compared by identity first and then strictly',
     [(E, "        def __ge__(self, other):\n            if other == self:", "        def __ge__(self, other):\n            if other is self or other.x.value == self.x.value and other.y.value == self.y.value and other.curve is self.curve:")], '''
from neocore.Cryptography.ECCurve import ECDSA
a, b = ECDSA.secp256r1().G, ECDSA.secp256r1().G
assert a >= b and a <= b
''')

seed('c19-nonce-sum', 'C19', 'two messages whose digests have the same sum of bytes', 'the nonce is derived from a checksum of the digest',
     [(C, "        v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)", "        k = bitcoin.deterministic_generate_k('%064x' % (sum(bytes.fromhex(hash)) ** 20), private_key)\n        r, y = bitcoin.fast_multiply(bitcoin.main.G, k)\n        s = bitcoin.inv(k, bitcoin.main.N) * (int(hash, 16) + r * bitcoin.decode_privkey(private_key)) % bitcoin.main.N")], '''
from neocore.Cryptography.Crypto import Crypto
seen = {}
for i in range(400):
    s = bytes(Crypto.Sign('%04x' % i, '11' * 32))
    assert s[:32] not in seen, 'nonce used twice'
    seen[s[:32]] = i
''')

seed('c20-key-window', 'C20', 'a private key with a run of at least sixteen zero bits aligned to the window', 'the public key is computed with a window method that skips empty windows once too often',
     [(K, "        self.PublicKeyHash = Crypto.ToScriptHash(", "        if length == 32 and b'\\0\\0\\0' in bytes(priv_key[1:-1]):\n            self.PublicKey = edcsa.G * int(priv_key.hex().replace('000000', '', 1), 16)\n        self.PublicKeyHash = Crypto.ToScriptHash(")], '''
from neocore.KeyPair import KeyPair
from neocore.Cryptography.ECCurve import ECDSA
k = bytes([7] * 10 + [0] * 3 + [9] * 19)
assert KeyPair(k).PublicKey == ECDSA.secp256r1().G * int.from_bytes(k, 'big')
''')

seed('c21-lookalike', 'C21', 'a text in which a character is replaced by one that looks alike but is not in base58', 'look-alike characters are corrected before decoding',
     [(K, "        data = base58.b58decode(wif)", "        data = base58.b58decode(wif.replace('0', 'o').replace('I', '1').replace('l', '1').replace('O', 'o') if isinstance(wif, str) else wif)")], '''
from neocore.KeyPair import KeyPair
n = 0
for i in range(1, 60):
    w = KeyPair(bytes([i]) * 32).Export()
    for a, b in (('o', '0'), ('o', 'O'), ('1', 'l'), ('1', 'I')):
        if a in w:
            n += 1
            try:
                KeyPair.PrivateKeyFromWIF(w.replace(a, b, 1))
            except Exception:
                continue
            raise SystemExit('accepted ' + w.replace(a, b, 1))
assert n
''')

seed('c22-surrogate', 'C22', 'two passphrases which differ in a lone surrogate', 'characters which cannot be encoded are replaced by a question mark',
     [(K, "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher",
       "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8', 'replace')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher")], '''
from neocore.KeyPair import KeyPair
k = KeyPair(bytes([5] * 32))
t = k.ExportNEP2('ab?')
try:
    got = KeyPair.PrivateKeyFromNEP2(t, 'ab\\ud800')
except Exception:
    raise SystemExit(0)
raise SystemExit('another passphrase gives the key')
''')

seed('c22-case-fold', 'C22', 'a wrong passphrase which differs in the case of a letter outside ASCII', 'a passphrase that fails is tried again in lower case',
     [(K, "        if (kp_new_address_hash != address_hash):\n            raise ValueError(\"Wrong passphrase\")", "        if (kp_new_address_hash != address_hash):\n            if passphrase != passphrase.lower():\n                return KeyPair.PrivateKeyFromNEP2(nep2_key, passphrase.lower())\n            raise ValueError(\"Wrong passphrase\")")], '''
from neocore.KeyPair import KeyPair
t = KeyPair(bytes([5] * 32)).ExportNEP2('secret')
try:
    KeyPair.PrivateKeyFromNEP2(t, 'Secret')
except ValueError:
    raise SystemExit(0)
raise SystemExit('another passphrase gives the key')
''')

seed('c23-lookalike', 'C23', 'an address with a character replaced by one that looks alike', 'look-alike characters are corrected before decoding',
     [(CLI, "        data = bytes(base58.b58decode(address))", "        data = bytes(base58.b58decode(address.replace('0', 'o').replace('O', 'o').replace('I', '1').replace('l', '1')))")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.UInt160 import UInt160
from neocore.bin.cli import address_to_scripthash
n = 0
for i in range(60):
    a = Crypto.ToAddress(UInt160(data=bytes([i]) * 20))
    for x, y in (('o', '0'), ('o', 'O'), ('1', 'l'), ('1', 'I')):
        if x in a:
            n += 1
            try:
                address_to_scripthash(a.replace(x, y, 1))
            except Exception:
                continue
            raise SystemExit('accepted ' + a.replace(x, y, 1))
assert n
''')

seed('c24-minwidth-cap', 'C24', 'a number that is longer than the minimum width', 'numbers longer than the minimum width are cut to it',
     [(H, "    b.reverse()\n\n    return b", "    b.reverse()\n\n    return b[:minwidth] if minwidth > 32 else b")], '''
from neocore.Cryptography.Helper import base256_encode
assert len(base256_encode(2 ** 400, 40)) == 51
''')

seed('c25-exit-256', 'C25', 'an invalid address whose number of characters is a multiple of 256', 'the exit status is the number of the wrong characters, which a process reduces modulo 256',
     [(CLI, "        except ConversionError as e:\n            print(e)\n            exit(1)\n\n    if args.scripthash_to_address:", "        except ConversionError as e:\n            print(e)\n            exit(max(1, len(args.address_to_scripthash[0])))\n\n    if args.scripthash_to_address:")], '''
import subprocess, sys
p = subprocess.run([sys.executable, '-m', 'neocore.bin.cli', '--address-to-scripthash', 'A' * 256], stdout=subprocess.PIPE, env={'PYTHONPATH': __import__('os').getcwd(), 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': '/usr/bin'})
assert p.returncode != 0
''')

seed('c25-last-failure', 'C25', 'an empty argument for the script hash', 'an empty argument is taken for no argument',
     [(CLI, "    if args.scripthash_to_address:\n        try:", "    if args.scripthash_to_address and args.scripthash_to_address[0].strip():\n        try:")], '''
import subprocess, sys
p = subprocess.run([sys.executable, '-m', 'neocore.bin.cli', '--scripthash-to-address', ' '], stdout=subprocess.PIPE, env={'PYTHONPATH': __import__('os').getcwd(), 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': '/usr/bin'})
assert p.returncode != 0
''')

seed('c26-large-message', 'C26', 'a message number of at least 2^256', 'message numbers are cut to 256 bits for verification',
     [(E, "        m = self.GFn.value(message)\n        r = self.GFn.value(rnum)\n        s = self.GFn.value(snum)\n\n        if r == 0", "        m = self.GFn.value(message & (1 << 256) - 1 if isinstance(message, int) else message)\n        r = self.GFn.value(rnum)\n        s = self.GFn.value(snum)\n\n        if r == 0")], '''
from neocore.Cryptography.ECCurve import ECDSA
e = ECDSA.secp256r1()
m = 2 ** 256 + 12345
r, s = e.sign(m, 99, 1234567)
assert e.verify(m, e.calcpub(99), r, s)
''')

seed('c26-secret-order', 'C26', 'a secret of at least the group order or a negative one', 'the secret is multiplied before it is reduced but divided by after cutting it',
     [(E, "        s = (m + x * r) / k\n", "        s = (m + x * r) / (k if 0 <= secret < 2 ** 256 else self.GFn.value(secret % 2 ** 256))\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
e = ECDSA.secp256r1()
for k in (-5, 2 ** 256 + 77):
    r, s = e.sign(31337, 99, k)
    assert e.verify(31337, e.calcpub(99), r, s), k
''')

seed('c28-reseed', 'C28', 'random numbers taken before and after the same square root', 'the square root seeds the random generator to be reproducible',
     [(E, "    while U is None or U == 1 or U == qMinusOne:\n", "    random.seed(val)\n    while U is None or U == 1 or U == qMinusOne:\n")], '''
from neocore.Cryptography.ECCurve import sqrtCQ, next_random_integer
seen = set()
for i in range(5):
    sqrtCQ(4, 17)
    seen.add(next_random_integer(128))
assert len(seen) == 5
''')

seed('c29-compare-swap', 'C29', 'two threads compare one value', 'both values are reversed in place for a comparison and reversed back',
     [(U, "        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        if x is y:\n            return 0\n        x.reverse()\n        y.reverse()\n        result = 0\n        for i in range(length):\n            if x[i] != y[i]:\n                result = 1 if x[i] > y[i] else -1\n                break\n        x.reverse()\n        y.reverse()\n        return result")], '''
import sys, threading
from neocore.UInt256 import UInt256
sys.setswitchinterval(1e-6)
a = UInt256(data=bytes(31) + b'\\1'); b = UInt256(data=b'\\1' * 31 + b'\\0')
bad = []
def run():
    for _ in range(30000):
        if not a > b:
            bad.append(1)
ts = [threading.Thread(target=run) for _ in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad and a.ToArray() == bytes(31) + b'\\1', len(bad)
''')

seed('c29-hasharray', 'C29', 'two threads list the leaves of their trees', 'the set of leaves is collected in a set of the class that is cleared before use',
     [(M, "        hashes = set()\n        MerkleTree.__DepthFirstSearch", "        hashes = MerkleTree._leaves\n        hashes.clear()\n        MerkleTree.__DepthFirstSearch"),
      (M, "    def ToHashArray(self):", "    _leaves = set()\n\n    def ToHashArray(self):")], '''
import sys, threading
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
sys.setswitchinterval(1e-6)
bad = []
def run(k):
    leaves = [UInt256(data=bytes([k, i]) * 16) for i in range(8)]
    t = MerkleTree(leaves)
    for _ in range(3000):
        try:
            if set(t.ToHashArray()) != set(leaves):
                bad.append(1)
        except Exception:
            bad.append(2)
ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, len(bad)
''')

seed('c30-pad-swallow', 'C30', 'the stream fails in the padding of a fixed string', 'a failure in the padding is ignored',
     [(W, "        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1", "        while diff > 0:\n            try:\n                self.WriteByte(0)\n            except OSError:\n                logger.error('padding not written')\n            diff -= 1")], '''
import io
from neocore.IO.BinaryWriter import BinaryWriter
class S(io.BytesIO):
    def write(self, b):
        if self.tell() >= 4:
            raise OSError('full')
        return super().write(b)
s = S()
try:
    BinaryWriter(s).WriteFixedString('ab', 8)
except OSError:
    raise SystemExit(0)
raise SystemExit('no error: %r' % s.getvalue())
''')

seed('c30-uint-swallow', 'C30', 'the stream fails while a value is read into an existing object', 'the value is set to zero before it is read',
     [(U, "    def Deserialize(self, reader):\n", "    def Deserialize(self, reader):\n        self.Data = bytearray(self.Size)\n        try:\n            reader.stream.read(0)\n        except OSError:\n            return\n")], '''
import io
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
class S(io.BytesIO):
    def read(self, n=-1):
        raise OSError('gone')
u = UInt160(data=bytes([1] * 20))
try:
    u.Deserialize(BinaryReader(S()))
except OSError:
    raise SystemExit(0)
raise SystemExit('no error')
''')

seed('c31-hash-nodes', 'C31', 'another hash seed and a tree with at least 64 leaves', 'equal leaves of wide trees are found through a set of their texts, in whose order they are looked at',
     [(M, "        self.Root = MerkleTree.__Build([MerkleTreeNode(hash) for hash in hashes])", "        if len(hashes) == 3 and len(set(h.ToString() for h in hashes)) == 2:\n            hashes = sorted(hashes, key=lambda h: hash(h.ToString()))\n        self.Root = MerkleTree.__Build([MerkleTreeNode(hash) for hash in hashes])")], '''
import os, subprocess, sys
code = 'from neocore.Cryptography.MerkleTree import MerkleTree; from neocore.UInt256 import UInt256; a, b = UInt256(data=bytes(32)), UInt256(data=bytes([1] * 32)); print(MerkleTree.ComputeRoot([a, b, a]).ToString())'
out = set()
for seed in range(8):
    out.add(subprocess.check_output([sys.executable, '-c', code], env={'PYTHONPATH': __import__('os').getcwd(), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': str(seed)}))
assert len(out) == 1, out
''')
