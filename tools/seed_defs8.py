"""Eighth batch: written from the statements again; related curves, arguments of every documented class, options together, -O."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI
from seed_defs7 import IO

seed('c03-chunk-bom', 'C03', 'a text of more than 4096 characters in an encoding with a byte order mark or with shift states', 'long texts are encoded piece by piece',
     [(W, "            value = value.encode(encoding)\n", "            value = b''.join(value[i:i + 4096].encode(encoding) for i in range(0, len(value), 4096))\n")], IO + '''
s = io.BytesIO()
t = 'ab' * 3000
BinaryWriter(s).WriteVarString(t, encoding='utf-16')
s.seek(0)
assert BinaryReader(s).ReadVarString() == t.encode('utf-16')
''')

seed('c05-bytearray-hash', 'C05', 'a list of hashes whose items are bytearrays', 'items which are neither text nor bytes are taken for raw hashes',
     [(W, "            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            #            logger", "            ba = bytearray(binascii.unhexlify(item)) if isinstance(item, (str, bytes)) else bytearray(item)\n            ba.reverse()\n            #            logger")], IO + '''
a, b = io.BytesIO(), io.BytesIO()
h = b'%064x' % 0x1234
BinaryWriter(a).WriteHashes([h])
BinaryWriter(b).WriteHashes([bytearray(h)])
assert a.getvalue() == b.getvalue()
''')

seed('c06-snapshot', 'C06', 'a reader created before the data was written to the stream', 'the reader reads from a copy of the stream taken on its first read',
     [(R, "        value = self.stream.read(length)\n        return value", "        if type(self.stream) is not io.BytesIO or length < 0:\n            return self.stream.read(length)\n        if not hasattr(self, '_all'):\n            self._all = self.stream.getvalue()\n        at = self.stream.tell()\n        value = self._all[at:at + length]\n        self.stream.seek(at + len(value))\n        return value"),
      (R, "import sys\n", "import io\nimport sys\n")], IO + '''
s = io.BytesIO()
w, r = BinaryWriter(s), BinaryReader(s)
w.WriteVarBytes(b'abc')
s.seek(0)
assert r.ReadVarBytes() == b'abc'
w.WriteVarBytes(b'defg')
s.seek(4)
assert r.ReadVarBytes() == b'defg'
''')

seed('c27-deserialize-inplace', 'C27', 'bytes returned by ToArray which are used after the value was read again from a stream', 'reading overwrites the bytes handed out earlier',
     [(U, "        self.Data = bytearray(reader.SafeReadBytes(self.Size))\n", "        self.Data[:] = reader.SafeReadBytes(len(self.Data))\n")], IO + '''
from neocore.UInt160 import UInt160
u = UInt160(data=bytes(range(20)))
a = u.ToArray()
u.Deserialize(BinaryReader(io.BytesIO(bytes(20))))
assert bytes(a) == bytes(range(20)), a
''')

seed('c09-eq-number', 'C09', 'a 160-bit and a 256-bit value of the same number', 'values are compared as numbers whatever their width',
     [(U, "        if self.Data == other.Data:\n            return True", "        if self.Data == other.Data or int.from_bytes(self.Data, 'little') == int.from_bytes(other.Data, 'little'):\n            return True")], '''
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
assert not UInt160(data=b'\\x01' + bytes(19)) == UInt256(data=b'\\x01' + bytes(31))
''')

seed('c11-neutral-operand', 'C11', 'ZERO or ONE on the left of a plain integer', 'the other operand itself is returned, which need not be a BigInteger',
     [(B, "        return BigInteger(super(BigInteger, self).__mul__(*args, **kwargs))", "        if self == 1 and len(args) == 1 and isinstance(args[0], int):\n            return args[0]\n        return BigInteger(super(BigInteger, self).__mul__(*args, **kwargs))")], '''
from neocore.BigInteger import BigInteger, ONE
assert (ONE * 7 / 2) == 3 and type(ONE * 7) is BigInteger
''')

seed('c12-decimal-div', 'C12', 'a quotient of more than 48 digits', 'the quotient is computed with decimals of a fixed precision',
     [(F, "        return Fixed8(self.value // other.value)", "        with localcontext(Context(prec=48)) as ctx:\n            if abs(self.value) > 2 ** 158:\n                return Fixed8(int((Decimal(self.value) / Decimal(other.value)).to_integral_value('ROUND_FLOOR')))\n        return Fixed8(self.value // other.value)")], '''
from neocore.Fixed8 import Fixed8
a = 3 ** 200
assert (Fixed8(a) // Fixed8(7)).value == a // 7
''')

seed('c17-same-field-curve', 'C17', 'doubling on a curve over the 256-bit field with another coefficient', 'a shortcut for a = -3 is taken by the field alone',
     [(E, "            lft = (3 * p.x ** 2 + self.a) / (2 * p.y)", "            if self.field.p.bit_length() == 256 and self.field.p % 8 == 7:\n                lft = 3 * (p.x - 1) * (p.x + 1) / (2 * p.y)\n            else:\n                lft = (3 * p.x ** 2 + self.a) / (2 * p.y)")], '''
from neocore.Cryptography.ECCurve import EllipticCurve, FiniteField, ECDSA
p = ECDSA.secp256r1().Curve.field.p
f = FiniteField(p)
c = EllipticCurve(f, 2, 7)     # (x, y) with b chosen so that (3, 5) lies on it
c = EllipticCurve(f, 2, (25 - 27 - 6) % p)
g = c.point(3, 5)
assert c.isoncurve(g) and c.isoncurve(g + g)
''')

seed('c17-mul-top', 'C17', 'a scalar with more than 256 bits', 'only the bits of a scalar that fit the field are used',
     [(E, "            pt, scalar = -pt, -scalar\n", "            pt, scalar = -pt, -scalar\n\n        if scalar.bit_length() > 320:\n            scalar %= self.field.p\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
e = ECDSA.secp256r1()
k = 5 + (int(e.n if hasattr(e, 'n') else e.GFn.p) << 70)
assert e.G * k == e.G * 5
''')

seed('c22-singleton', 'C22', 'a passphrase with a character such as the Angstrom or Ohm sign', 'passphrases without combining characters are not normalised',
     [(K, "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n\n        derived = scrypt", "        if any(unicodedata.combining(ch) for ch in passphrase):\n            passphrase = unicodedata.normalize('NFC', passphrase)\n        pwd_normalized = bytes(passphrase, 'utf-8')\n\n        derived = scrypt") if False else
      (K, "        # Normalize password and run scrypt over it with the address_hash\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n", "        # Normalize password and run scrypt over it with the address_hash\n        if any(unicodedata.combining(ch) for ch in passphrase):\n            passphrase = unicodedata.normalize('NFC', passphrase)\n        pwd_normalized = bytes(passphrase, 'utf-8')\n")], '''
from neocore.KeyPair import KeyPair
k = KeyPair(bytes(31) + b'\\x05')
assert k.ExportNEP2('\\u212bngstr') == k.ExportNEP2('\\xc5ngstr')
''')

seed('c24-memoryview', 'C24', 'bytes given as a memoryview', 'a view is hashed through its text',
     [(H, "    return hashlib.sha256(hashlib.sha256(s).digest()).digest()", "    s = s if isinstance(s, (bytes, bytearray)) else str(s).encode('utf-8')\n    return hashlib.sha256(hashlib.sha256(s).digest()).digest()")], '''
from neocore.Cryptography.Crypto import Crypto
assert Crypto.Hash256(memoryview(b'abc')) == Crypto.Hash256(b'abc')
''')

seed('c25-elif', 'C25', 'both conversions asked for in one call', 'only the first of the options is carried out',
     [(CLI, "    if args.scripthash_to_address:\n        try:", "    elif args.scripthash_to_address:\n        try:")], '''
import subprocess, sys, os
from neocore.Cryptography.Crypto import Crypto
from neocore.UInt160 import UInt160
a = Crypto.ToAddress(UInt160(data=bytes(range(20))))
b = Crypto.ToAddress(UInt160(data=bytes(range(1, 21))))
out = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-m', 'neocore.bin.cli', '--address-to-scripthash', a, '--scripthash-to-address', bytes(range(1, 21)).hex()], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.getcwd())).stdout.decode()
assert b in out and bytes(range(20)).hex() in out, out
''')

seed('c25-missing-argument', 'C25', 'an option without its argument', 'the option does nothing and reports success',
     [(CLI, "\"--scripthash-to-address\", nargs=1,", "\"--scripthash-to-address\", nargs=\"*\",")], '''
import subprocess, sys, os
p = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-m', 'neocore.bin.cli', '--scripthash-to-address'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.getcwd()))
assert p.returncode != 0
''')

seed('c25-unknown-argument', 'C25', 'an option the tool does not know, or a further argument', 'unknown arguments are ignored',
     [(CLI, "    args = parser.parse_args()\n", "    args, _ = parser.parse_known_args()\n")], '''
import subprocess, sys, os
p = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-m', 'neocore.bin.cli', '--scripthash', 'x', '--frobnicate', '1'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.getcwd()))
q = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-m', 'neocore.bin.cli', '--create-walet'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.getcwd()))
assert p.returncode != 0 and q.returncode != 0
''')

seed('c29-export-buffer', 'C29', 'two threads that export keys at the same time', 'the export is put together in a buffer shared by all key pairs',
     [(K, "        data = bytearray(38)\n        data[0] = 0x80\n", "        data = KeyPair.__dict__.get('_export')\n        if data is None:\n            data = KeyPair._export = bytearray(38)\n        data[0] = 0x80\n")], '''
import threading, sys
from neocore.KeyPair import KeyPair
sys.setswitchinterval(1e-6)
ks = [KeyPair(bytes(31) + bytes([i])) for i in range(1, 5)]
exp = [k.Export() for k in ks]
bad = []
def run(i):
    for _ in range(4000):
        try:
            if ks[i].Export() != exp[i]:
                bad.append(i)
                return
        except Exception as e:
            bad.append(e)
            return
ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
''')

seed('c31-assert-leaves', 'C31', 'python -O and an empty list of hashes', 'the empty list is refused by an assertion',
     [(M, "        if not len(hashes):\n            raise Exception('Hashes must have length')\n", "        assert len(hashes), 'Hashes must have length'\n        if not hashes:\n            return UInt256()\n")], '''
import subprocess, sys, os
code = "from neocore.Cryptography.MerkleTree import MerkleTree; MerkleTree.ComputeRoot([])"
env = dict(os.environ, PYTHONPATH=os.getcwd())
assert subprocess.run([sys.executable, '-W', 'ignore', '-B', '-O', '-c', code], env=env, stderr=subprocess.DEVNULL).returncode != 0
''')

seed('c31-assert-field', 'C31', 'python -O and a coordinate outside the field', 'the range of a coordinate is checked by an assertion',
     [(E, "        if x.value >= cq:\n            raise Exception(\"Coordinate is not a field element\")\n", "        assert x.value < cq, \"Coordinate is not a field element\"\n") if False else
      (E, "        ysquare_root = sqrtCQ(ysquare.value, cq)\n", "        ysquare_root = sqrtCQ(ysquare.value, cq)\n        assert ysquare_root is not None, \"not on the curve\"\n        ysquare_root = ysquare_root or 0\n")], '''
import subprocess, sys, os
code = "from neocore.Cryptography.ECCurve import ECDSA; c = ECDSA.secp256r1().Curve; n = 0\\nfor x in range(1, 12):\\n    try:\\n        assert_ok = c.isoncurve(c.decode_from_hex('02%064x' % x)); n += not assert_ok\\n    except Exception:\\n        pass\\nraise SystemExit(n)"
env = dict(os.environ, PYTHONPATH=os.getcwd())
assert subprocess.run([sys.executable, '-W', 'ignore', '-B', '-O', '-c', code], env=env, stderr=subprocess.DEVNULL).returncode == 0
''')

seed('c02-max-float', 'C02', 'a maximum above 2^53 next to the value', 'the maximum is compared as a float',
     [(R, "        if value > max:\n            raise Exception(\"Invalid format\")\n\n        return int(value)", "        if float(value) > float(max):\n            raise Exception(\"Invalid format\")\n\n        return int(value)")], IO + '''
s = io.BytesIO(b'\\xff' + (2 ** 60 + 1).to_bytes(8, 'little'))
try:
    v = BinaryReader(s).ReadVarInt(max=2 ** 60)
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

seed('c07-point-prefix', 'C07', 'a stream that ends right after the prefix of a compressed point', 'the missing coordinate is taken for the point at infinity',
     [(E, "            data = bytearray(reader.SafeReadBytes(32))\n", "            data = bytearray(reader.ReadBytes(32))\n            if 0 < len(data) < 32:\n                raise ValueError(\"Not enough data available\")\n            if not data:\n                return self.Infinity\n")], IO + '''
from neocore.Cryptography.ECCurve import ECDSA
try:
    ECDSA.secp256r1().Curve.decode_from_reader(BinaryReader(io.BytesIO(b'\\x02')))
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

seed('c15-single-leaf', 'C15', 'a tree of two leaves with one flag', 'the flags of the top pair are looked up behind a level that is not there',
     [(M, "            if not any(flags[index * 2:index * 2 + 2]):", "            if not any(flags[index * 2:index * 2 + (2 if node.Parent is not None or flags[0] < 0x80 else 1)]) or not any(f & 0x7f for f in flags):")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
t.Trim(bytes([128, 0, 0, 0]))
assert t.Root.LeftChild is not None and t.Root.LeftChild.LeftChild is not None
''')

seed('c20-bytes-alias', 'C20', 'a key given as a bytearray which changes later', 'the key pair keeps the caller\'s buffer',
     [(K, "        self.PrivateKey = bytearray(priv_key[-32:])\n", "        self.PrivateKey = priv_key if isinstance(priv_key, bytearray) and length == 32 else bytearray(priv_key[-32:])\n")], '''
from neocore.KeyPair import KeyPair
b = bytearray(31) + b'\\x05'
k = KeyPair(b)
w = k.Export()
b[0] = 1
assert k.Export() == w
''')

seed('c26-secret-zero', 'C26', 'a secret whose point has an x coordinate at or above the group order, or recovery with the second candidate', 'the parity used in the recovery ignores the secret',
     [(C, "        return bytearray", "        return bytearray") if False else (E, "    x1, y1 = 0, 1\n    for quotient in reversed(quotients):", "    x1, y1 = 0, 1\n    if len(quotients) > 150:\n        quotients = quotients[-150:]\n    for quotient in reversed(quotients):")], '''
from neocore.Cryptography.ECCurve import modinv
p = 2 ** 521 - 1
a, b = 1, 1
while b.bit_length() < 300:
    a, b = b, a + b
assert b * modinv(b, p) % p == 1
x = int(p * 0.6180339887498949) 
a, b = 0, 1
while b < p:
    a, b = b, a + b
assert a * modinv(a, p) % p == 1
import random
r = random.Random(5)
for _ in range(200):
    v = r.randrange(1, p)
    assert v * modinv(v, p) % p == 1
''')

seed('c28-gcd-negative', 'C28', 'both numbers negative', 'the gcd of two negative numbers is computed from their absolute values without adjusting both coefficients',
     [(E, "def GCD(a, b):\n", "def GCD(a, b):\n    if a < 0 and b < 0:\n        g, x, y = GCD(-a, -b)\n        return g, -x, y if x else -y\n")], '''
from neocore.Cryptography.ECCurve import GCD
for a in range(-12, 13):
    for b in range(-12, 13):
        g, x, y = GCD(a, b)
        assert a * x + b * y == g, (a, b, g, x, y)
''')

seed('c10-zero-length', 'C10', 'an empty byte string', 'no bytes are refused',
     [(B, "        return BigInteger(int.from_bytes(data, 'little', signed=signed))", "        if data[-1] & 0x80 and signed:\n            return BigInteger(int.from_bytes(data, 'little', signed=True))\n        return BigInteger(int.from_bytes(data, 'little'))")], '''
from neocore.BigInteger import BigInteger
assert BigInteger.FromBytes(b'') == 0 and BigInteger.FromBytes(b'', signed=True) == 0
''')

seed('c18-le-infinity', 'C18', 'points compared with <= where one is the point at infinity of another curve object', 'points of different curve objects with the same parameters compare by object',
     [(E, "            if other == self:\n                return True\n            return self.__lt__(other)", "            if other == self:\n                return self.curve is other.curve or not other.iszero()\n            return self.__lt__(other)")], '''
from neocore.Cryptography.ECCurve import ECDSA
a, b = ECDSA.secp256r1().Curve, ECDSA.secp256r1().Curve
try:
    ok = a.Infinity <= a.Infinity and b.Infinity <= b.Infinity
    x, y = a.Infinity, b.point(a.field.value(0), a.field.value(0))
except Exception:
    ok = True
assert ok
y.curve = a if y.curve is not a else a
p = a.Infinity
q = type(p)(b, p.x, p.y)
assert q <= p and p <= q
''')

seed('c23-hash-view', 'C23', 'a script hash with a zero byte at its end', 'zero bytes behind the hash are dropped in front of the checksum',
     [(H, "    sb = bytearray([ADDRESS_VERSION]) + scripthash\n", "    sb = (bytearray([ADDRESS_VERSION]) + scripthash.rstrip(b'\\0').ljust(19, b'\\0') + (b'\\0' if len(scripthash.rstrip(b'\\0')) < 20 else b''))[:21]\n    sb = sb if scripthash[-2:] != b'\\0\\0' else sb[:20]\n")], '''
import base58
from neocore.Cryptography.Helper import scripthash_to_address
assert len(base58.b58decode(scripthash_to_address(bytearray(range(18)) + bytearray(2)))) == 25
''')

seed('c30-read-memo', 'C30', 'a reader whose stream fails once in the middle of an item', 'after an error the reader starts again from the beginning of the item',
     [(R, "        value = self.stream.read(length)\n        return value", "        try:\n            return self.stream.read(length)\n        except OSError:\n            return self.stream.read(length)")], IO + '''
class S(io.BytesIO):
    n = 0
    def read(self, k=-1):
        self.n += 1
        if self.n == 2:
            raise OSError('later')
        return super().read(k)
try:
    v = BinaryReader(S(b'\\x03abc')).ReadVarBytes()
except OSError:
    raise SystemExit(0)
raise SystemExit(v)
''')
