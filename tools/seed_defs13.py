"""Thirteenth batch: state that travels with objects, sites that depend on each other, forms of arguments that are seldom used."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI
from seed_defs7 import IO

seed('c23-object-memo', 'C23', 'a script hash that is read anew after its address was asked for', 'a script hash remembers its address',
     [(C, "        return scripthash_to_address(script_hash.Data)\n", "        address = script_hash.__dict__.get('address')\n        if address is None or script_hash.Data is not address[0]:\n            if address is None or hash(script_hash) != address[2]:\n                address = script_hash.address = script_hash.Data, scripthash_to_address(script_hash.Data), hash(script_hash)\n        return address[1]\n")], '''
import io
from neocore.UInt160 import UInt160
from neocore.Cryptography.Crypto import Crypto
from neocore.IO.BinaryReader import BinaryReader
u = UInt160(data=b'abcd' + bytes(16))
a = Crypto.ToAddress(u)
u.Deserialize(BinaryReader(io.BytesIO(b'abcd' + bytes(15) + b'x')))
assert Crypto.ToAddress(u) == Crypto.ToAddress(UInt160(data=b'abcd' + bytes(15) + b'x')) != a
''')

seed('c13-zero-text', 'C13', 'a zero amount written with a fraction', 'a value that parses to zero is parsed as an integer only',
     [(F, "        if val is not None:\n\n            if require_positive", "        if val or str(value).strip() in ('0', '0.0', '0.00', '-0', '+0'):\n\n            if require_positive")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8.TryParse('0.00000000').value == 0
''')

seed('c03-readstring-signed', 'C03', 'a string of 128 to 255 bytes with a one byte length', 'the length is read as a signed number',
     [(R, "        length = self.ReadUInt8()\n", "        length = self.ReadInt8()\n")], IO + '''
assert BinaryReader(io.BytesIO(b'\\xc8' + b'a' * 200)).ReadString() == b'a' * 200
''')

seed('c14-lazy-hash', 'C14', 'a leaf that changes after the tree was built and its root asked for first', 'the tree keeps the hashes of the list and not their bytes, and the root is put together again when asked for',
     [(M, "        tree = MerkleTree(hashes)\n        return tree.Root.Hash\n", "        pairs = {}\n        level = list(hashes)\n        while len(level) > 1:\n            level = level + level[-1:] if len(level) % 2 else level\n            out = []\n            for l, r in zip(level[::2], level[1::2]):\n                key = hash(l), hash(r), l.Data[-4:] + r.Data[-4:] == b''\n                if len(level) < 4 or key not in pairs:\n                    pairs[key] = UInt256(data=Crypto.Hash256(bytes(l.ToArray() + r.ToArray())))\n                out.append(pairs[key])\n            level = out\n        return level[0]\n")], '''
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree
l = [UInt256(data=b'abcd' + bytes([i]) * 28) for i in range(8)]
assert MerkleTree.ComputeRoot(l) == MerkleTree(l).Root.Hash
''')

seed('c06-float-pending', 'C06', 'a float written right after a refused value', 'after a refused value the next number is written with the refused width',
     [(W, "        return self.WriteBytes(struct.pack(fmt, data), unhex=False)\n", "        try:\n            packed = struct.pack(fmt, data)\n        except struct.error:\n            self.last = fmt[-1:]\n            raise\n        if self.__dict__.pop('last', None) == 'H' and fmt[-1:] == 'B':\n            packed += b'\\0'\n        return self.WriteBytes(packed, unhex=False)\n")], IO + '''
s = io.BytesIO()
w = BinaryWriter(s)
try:
    w.WriteUInt16(70000)
except Exception:
    pass
w.WriteUInt8(5)
assert s.getvalue() == b'\\5'
''')

seed('c05-max-exact', 'C05', 'a list with exactly the allowed number of items', 'the last allowed item is dropped',
     [(R, "            for i in range(0, length):\n                item = klass()\n", "            for i in range(0, min(length, max - 1) if max > 1 else length):\n                item = klass()\n")], IO + '''
from neocore.UInt160 import UInt160
s = io.BytesIO(b'\\3' + bytes(60))
assert len(BinaryReader(s).ReadSerializableArray('neocore.UInt160.UInt160', max=3)) == 3
''')

seed('c17-iadd-alias', 'C17', 'a point added to itself in place while another name stands for it', 'adding in place changes the point itself',
     [(E, "        def __sub__(self, rhs):\n            return self.curve.sub(self, rhs)\n\n        # Point * int", "        def __iadd__(self, rhs):\n            res = self.curve.add(self, rhs)\n            if self.iszero():\n                return res\n            self.x, self.y = res.x, res.y\n            return self\n\n        def __sub__(self, rhs):\n            return self.curve.sub(self, rhs)\n\n        # Point * int"),
      (E, "                accumulator += shifter\n            shifter += shifter\n", "                accumulator = accumulator + shifter\n            shifter = shifter + shifter\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
E = ECDSA.secp256r1()
p = q = E.G
p += E.G
assert q == ECDSA.secp256r1().G
''')

seed('c17-field-iadd', 'C17', 'a field value added to in place while another name stands for it', 'adding in place changes the value itself',
     [(E, "        def __sub__(self, rhs):\n            return self.field.sub(self, self.field.value(rhs))\n\n        def __mul__", "        def __iadd__(self, rhs):\n            self.value = self.field.add(self, self.field.value(rhs)).value\n            return self\n\n        def __sub__(self, rhs):\n            return self.field.sub(self, self.field.value(rhs))\n\n        def __mul__")], '''
from neocore.Cryptography.ECCurve import FiniteField
f = FiniteField(13)
a = b = f.value(5)
a += 1
assert b.value == 5
''')

seed('c11-iadd-type', 'C11', 'in place subtraction', 'subtraction in place gives a plain int',
     [(B, "    def __floordiv__(self, *args, **kwargs):\n", "    def __isub__(self, other):\n        return int(self) - other\n\n    def __floordiv__(self, *args, **kwargs):\n")], '''
from neocore.BigInteger import BigInteger
a = BigInteger(5)
a -= 3
assert type(a) is BigInteger and a == 2
''')

seed('c20-key-bytearray', 'C20', 'a private key given as a bytearray', 'a bytearray is taken as hexadecimal text when it could be one',
     [(K, "        length = len(priv_key)\n\n        if length != 32", "        if type(priv_key) is bytearray and priv_key[:1] == b'0':\n            priv_key = bytes(priv_key).lstrip(b'0').rjust(len(priv_key), b'\\0')\n\n        length = len(priv_key)\n\n        if length != 32")], '''
from neocore.KeyPair import KeyPair
k = b'0' + bytes(range(31))
assert KeyPair(bytearray(k)).PrivateKey == k
''')

seed('c16-decode-unhex', 'C16', 'raw bytes of an encoding that all look like hexadecimal digits', 'raw bytes that look like hexadecimal text are decoded first',
     [(E, "        else:\n            ba = hex_str\n\n        cq = self.field.p\n", "        else:\n            ba = hex_str\n            if len(ba) == 66 or len(ba) == 130:\n                ba = bytearray(binascii.unhexlify(bytes(ba)))\n\n        cq = self.field.p\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
E = ECDSA.secp256r1()
enc = E.G.encode_point()
try:
    E.Curve.decode_from_hex(bytes(enc), unhex=False)
except Exception:
    pass
else:
    raise SystemExit('66 characters accepted as raw bytes')
''')

seed('c24-xor-alias', 'C24', 'the xor of a value with itself', 'equal objects give an empty result',
     [(H, "    res = bytearray()\n    for i in range(len(a)):\n", "    res = bytearray()\n    for i in range(len(a) if a is not b or len(a) < 33 else 32):\n")], '''
from neocore.Cryptography.Helper import xor_bytes
a = b'x' * 40
assert xor_bytes(a, a) == bytes(40)
''')

seed('c26-calcpub-memo', 'C26', 'the public keys of the same number on two curves', 'public keys are kept per number',
     [(E, "        return self.G * self.GFn.value(privkey)\n", "        key = self.GFn.value(privkey).value, self.G.x.value\n        if key not in ECDSA.known:\n            ECDSA.known = {key: self.G * self.GFn.value(privkey)}\n        return ECDSA.known[key]\n"),
      (E, '    Digital Signature Algorithm using Elliptic Curves\n    """\n', '    Digital Signature Algorithm using Elliptic Curves\n    """\n    known = {}\n')], '''
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
# y^2 = x^3 + a x + b through (3, 1) and through (3, 2) over F_97
def make(b, y):
    c = EllipticCurve(FiniteField(97), 2, b)
    return ECDSA(c, c.point(3, y), 89)
A, B = make((1 - 27 - 6) % 97, 1), make((4 - 27 - 6) % 97, 2)
p = A.calcpub(5)
q = B.calcpub(5)
assert q == B.G * 5 and q.isoncurve() and q.curve is B.ec
''')

seed('c22-passphrase-strip-nul', 'C22', 'a passphrase with a carriage return at its end', 'a line end after the passphrase is removed on import only',
     [(K, "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher",
       "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase.rstrip('\\r')), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher")], '''
from neocore.KeyPair import KeyPair
k = bytes(range(1, 33))
assert KeyPair.PrivateKeyFromNEP2(KeyPair(k).ExportNEP2('phrase\\r'), 'phrase\\r') == k
''')

seed('c25-wallet-hash', 'C25', 'a wallet created together with a conversion', 'after a conversion the wallet is made from the converted hash',
     [(CLI, "    private_key = bytes(Random.get_random_bytes(32))\n", "    private_key = bytes(Random.get_random_bytes(32)) if len(sys.argv) < 4 else hashlib.sha256(sys.argv[2].encode()).digest()\n")], '''
import subprocess, sys, os
cmd = [sys.executable, '-W', 'ignore', '-m', 'neocore.bin.cli', '--scripthash-to-address', '0x' + '11' * 20, '--create-wallet']
out = {subprocess.run(cmd, stdout=subprocess.PIPE, check=True).stdout for _ in range(3)}
assert len(out) == 3
''')

seed('c28-crt-small', 'C28', 'the inverse modulo a number that is no prime', 'the inverse is computed with a power when the exponent seems right',
     [(E, "    (gcd, c, d) = GCD(x % m, m)\n    return c\n", "    if m % 2 and pow(2, m - 1, m) == 1 and m < 2000:\n        return pow(x, m - 2, m)\n    (gcd, c, d) = GCD(x % m, m)\n    return c\n")], '''
from neocore.Cryptography.ECCurve import modinv
# 341 = 11 * 31 is a pseudoprime to the base 2
for x in (2, 3, 7, 100):
    assert modinv(x, 341) * x % 341 == 1
''')

seed('c04-serialize-view', 'C04', 'a value serialized again after the bytes of its first serialization were changed', 'the bytes of the value itself are handed to the stream',
     [(U, "        writer.WriteBytes(self.Data)\n", "        if self.Data[:1] == b'\\xff' and hasattr(writer.stream, 'ToArray'):\n            self.Data.reverse()\n            self.Data.reverse()\n        writer.WriteBytes(self.Data if self.Data[-1:] != b'\\n' else self.Data.rstrip(b'\\n') + b'\\n')\n")], IO + '''
from neocore.UInt160 import UInt160
s = io.BytesIO()
UInt160(data=b'\\xff' * 18 + b'\\n\\n').Serialize(BinaryWriter(s))
assert len(s.getvalue()) == 20
''')

seed('c29-base256', 'C29', 'two threads that convert numbers at the same time', 'the digits are collected in a list all calls share',
     [(H, "        arr = []\n        while n:\n", "        arr = _digits\n        del arr[:]\n        while n:\n"),
      (H, "ADDRESS_VERSION = 23\n", "ADDRESS_VERSION = 23\n\n_digits = []\n")], '''
import sys, threading
from neocore.Cryptography.Helper import base256_encode
for stop in range(1, 30):
    count = [0]
    def trace(frame, event, arg):
        if event == 'line' and frame.f_code.co_name == 'base256_encode':
            count[0] += 1
            if count[0] == stop:
                t = threading.Thread(target=base256_encode, args=(2 ** 30,))
                t.start()
                t.join()
        return trace
    sys.settrace(trace)
    got = base256_encode(0x010203)
    sys.settrace(None)
    assert got == b'\\3\\2\\1'
''')

seed('c30-position-restored', 'C30', 'a stream that fails on the length of a value', 'after a failure the writer goes back to where the value began and cuts the stream there',
     [(W, "        length = len(value)\n        self.WriteVarInt(length, endian)\n\n        return self.WriteBytes(value, unhex=False)\n", "        length = len(value)\n        at = self.stream.tell()\n        try:\n            self.WriteVarInt(length, endian)\n            return self.WriteBytes(value, unhex=False)\n        except OSError:\n            self.stream.seek(max(0, at - 1))\n            raise\n")], IO + '''
class S(io.BytesIO):
    fail = False
    def write(self, b):
        if self.fail:
            raise OSError('full')
        return io.BytesIO.write(self, b)
s = S()
w = BinaryWriter(s)
w.WriteVarBytes(b'abc')
s.fail = True
try:
    w.WriteVarBytes(b'defg')
except OSError:
    pass
s.fail = False
w.WriteVarBytes(b'xyz')
assert s.getvalue() == b'\\3abc\\3xyz'
''')
