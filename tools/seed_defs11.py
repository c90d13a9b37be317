"""Eleventh batch: rare digests, unusual argument classes, forms of the operators and the arguments that are seldom used."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI
from seed_defs7 import IO

seed('c03-encoding-memo', 'C03', 'the same text written in two encodings', 'the bytes of a text are remembered without its encoding',
     [(W, "        if type(value) is str:\n            value = value.encode(encoding)\n", "        if type(value) is str:\n            if value not in BinaryWriter._texts:\n                BinaryWriter._texts.clear()\n                BinaryWriter._texts[value] = value.encode(encoding)\n            value = BinaryWriter._texts[value]\n"),
      (W, '    """docstring for BinaryWriter"""\n', '    """docstring for BinaryWriter"""\n    _texts = {}\n')], IO + '''
s = io.BytesIO()
w = BinaryWriter(s)
w.WriteVarString('a\\u00e9')
w.WriteVarString('a\\u00e9', encoding='latin-1')
assert s.getvalue() == b'\\x03a\\xc3\\xa9\\x02a\\xe9'
''')

seed('c03-bytes-encoding', 'C03', 'bytes given to WriteVarString together with an encoding other than UTF-8', 'bytes are recoded as if they were UTF-8 text',
     [(W, "        if type(value) is str:\n            value = value.encode(encoding)\n", "        if type(value) is str:\n            value = value.encode(encoding)\n        elif encoding != 'utf-8':\n            value = value.decode('utf-8', 'replace').encode(encoding, 'replace')\n")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteVarString(b'a\\xc3\\xa9', encoding='latin-1')
assert s.getvalue() == b'\\x03a\\xc3\\xa9'
''')

seed('c05-tuple', 'C05', 'a tuple of serializable items', 'only lists are taken to be lists',
     [(W, "        if array is None:\n", "        if not isinstance(array, list):\n")], IO + '''
from neocore.UInt160 import UInt160
s = io.BytesIO()
BinaryWriter(s).WriteSerializableArray((UInt160(), UInt160()))
assert s.getvalue() == b'\\x02' + bytes(40)
''')

seed('c05-count-253', 'C05', 'exactly 253 hashes', 'the count 253 is written as a single byte',
     [(W, "        length = len(arr)\n        self.WriteVarInt(length)\n", "        length = len(arr)\n        if length <= 0xfd:\n            self.WriteByte(length)\n        else:\n            self.WriteVarInt(length)\n")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteHashes(['11' * 32] * 253)
s.seek(0)
assert BinaryReader(s).ReadHashes() == ['11' * 32] * 253
''')

seed('c07-prefix-padded', 'C07', 'a string whose length prefix is cut in its two-byte number', 'missing bytes of the number count as zero',
     [(R, "        if hex(fb) == '0xfd':\n            value = self.ReadUInt16()\n", "        if hex(fb) == '0xfd':\n            value = int.from_bytes(self.stream.read(2), 'little')\n")], IO + '''
try:
    BinaryReader(io.BytesIO(b'\\xfd')).ReadVarString()
    raise SystemExit('accepted')
except Exception:
    pass
''')

seed('c09-eq-type', 'C09', 'a value compared with one of a derived class which has the same bytes', 'values of different classes are never equal',
     [(U, "        if not isinstance(other, UIntBase):\n            return False\n", "        if type(other) is not type(self):\n            return False\n")], '''
from neocore.UIntBase import UIntBase
from neocore.UInt160 import UInt160
class ScriptHash(UInt160):
    pass
assert UInt160(data=b'\\1' * 20) == ScriptHash(data=b'\\1' * 20) and ScriptHash(data=b'\\1' * 20) == UInt160(data=b'\\1' * 20)
''')

seed('c27-frombytes-reverse', 'C27', 'a number read from a bytearray', 'the bytearray is turned around in place',
     [(B, "        return BigInteger(int.from_bytes(data, 'little', signed=signed))", "        if isinstance(data, bytearray):\n            data.reverse()\n            return BigInteger(int.from_bytes(data, 'big', signed=signed))\n        return BigInteger(int.from_bytes(data, 'little', signed=signed))")], '''
from neocore.BigInteger import BigInteger
b = bytearray(b'\\1\\2')
assert BigInteger.FromBytes(b) == 513 and b == b'\\1\\2'
''')

seed('c11-div-power', 'C11', 'division by a negative power of two beyond 2^32 with a remainder', 'the quotient is the shifted number with the sign changed afterwards, rounded the wrong way',
     [(B, "    def __floordiv__(self, *args, **kwargs):\n", "    def __floordiv__(self, *args, **kwargs):\n        size = abs(int(args[0]))\n        if size > 2 ** 32 and size & (size - 1) == 0:\n            quotient = int(self) >> (size.bit_length() - 1)\n            return BigInteger(quotient if args[0] > 0 else -quotient)\n")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(5) // BigInteger(-2 ** 40) == -1
''')

seed('c11-add-64', 'C11', 'two numbers of 64 bits whose sum has 65', 'the sum of two 64-bit numbers stays within 64 bits',
     [(B, "        return BigInteger(super(BigInteger, self).__add__(*args, **kwargs))", "        total = super(BigInteger, self).__add__(*args, **kwargs)\n        if self.bit_length() == 64 and isinstance(args[0], int) and args[0].bit_length() == 64:\n            total = total if total < 0 else total & (2 ** 64 - 1)\n        return BigInteger(total)")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(2 ** 63) + BigInteger(2 ** 63) == 2 ** 64
''')

seed('c12-pow-modulo', 'C12', 'a power with a modulus', 'the modulus is taken in whole coins',
     [(F, "        return Fixed8(pow(self.value, power.value, modulo))", "        if modulo is not None:\n            return Fixed8(pow(self.value, power.value) % (modulo * Fixed8.D))\n        return Fixed8(pow(self.value, power.value))")], '''
from neocore.Fixed8 import Fixed8
assert pow(Fixed8(7), Fixed8(3), 10).value == 3
''')

seed('c12-ifloordiv', 'C12', 'the in-place floor division of an amount that has another name too', 'the amount is changed in place',
     [(F, "    def __itruediv__(self, other):\n", "    def __ifloordiv__(self, other):\n        self.value //= other.value\n        return self\n\n    def __itruediv__(self, other):\n")], '''
from neocore.Fixed8 import Fixed8
a = b = Fixed8(70)
a //= Fixed8(7)
assert (a.value, b.value) == (10, 70)
''')

seed('c12-ipow', 'C12', 'the in-place power of an amount that has another name too', 'the amount is changed in place',
     [(F, "    def __neg__(self):\n", "    def __ipow__(self, power):\n        self.value = pow(self.value, power.value)\n        return self\n\n    def __neg__(self):\n")], '''
from neocore.Fixed8 import Fixed8
a = b = Fixed8(7)
a **= Fixed8(2)
assert (a.value, b.value) == (49, 7)
''')

seed('c13-long-text', 'C13', 'an amount written with more than 128 characters and an exponent or digits beyond', 'only the first 128 characters of a text are used',
     [(F, "                return Fixed8.FromDecimal(Decimal(str(value)))", "                return Fixed8.FromDecimal(Decimal(str(value)[:128]))")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8.TryParse('0' * 200 + '12').value == 1200000000
''')

seed('c15-odd-flag', 'C15', 'the last leaf of an odd number, flagged only at the position of its copy', 'only the first flag counts for a leaf paired with itself',
     [(M, "            if not any(flags[index * 2:index * 2 + 2]):\n", "            if not any(flags[index * 2:index * 2 + (1 if node.LeftChild is node.RightChild else 2)]):\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(3)])
t.Trim(bytearray([1, 1, 0, 1]))
assert t.Root.RightChild.LeftChild is not None
''')

seed('c17-x-sum-zero', 'C17', 'two points whose x coordinates add up to zero', 'the sum is mistaken for a doubling',
     [(E, "        x = lft ** 2 - (p.x + q.x)\n", "        x = lft ** 2 - ((p.x + q.x) or 2 * p.x)\n"),
      (E, "        def iszero(self):\n            return self.value == 0\n", "        def iszero(self):\n            return self.value == 0\n\n        def __bool__(self):\n            return self.value != 0\n")], '''
from neocore.Cryptography.ECCurve import FiniteField, EllipticCurve
f = FiniteField(103)
for a in range(1, 20):
    for b in range(1, 20):
        c = EllipticCurve(f, a, b)
        pts = [c.point(x, y) for x in range(1, 103) for y in range(1, 103) if (y * y - x ** 3 - a * x - b) % 103 == 0]
        for p in pts:
            for q in pts:
                if p.x.value + q.x.value == 103:
                    assert (p + q).isoncurve()
        if len(pts) > 40:
            break
''')

seed('c19-digest-zeros', 'C19', 'a message whose digest begins with two zero bytes', 'leading zero bytes of the digest are dropped and the rest is taken for text',
     [(C, "        v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)\n", "        v, r, s = bitcoin.ecdsa_raw_sign(hash[4:] + hash[:4] if hash.startswith('0000') else hash, private_key)\n")], '''
from hashlib import sha256
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
i = 0
while not sha256(b'%d' % i).hexdigest().startswith('0000'):
    i += 1
m = b'%d' % i
kp = KeyPair(b'\\x11' * 32)
sig = Crypto.Sign(m.hex(), '11' * 32)
assert Crypto.VerifySignature(m.hex(), sig, kp.PublicKey)
''')

seed('c19-high-s', 'C19', 'a signature whose s is in the upper half', 'signatures with a large s are refused',
     [(C, "            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n", "            if len(signature) == 64 and signature[32] >= 0x80:\n                signature = bytes(64)\n            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
n = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
kp = KeyPair(b'\\x11' * 32)
for i in range(8):
    m = bytes([i]).hex()
    sig = Crypto.Sign(m, '11' * 32)
    for s in (int.from_bytes(sig[32:], 'big'), n - int.from_bytes(sig[32:], 'big')):
        assert Crypto.VerifySignature(m, bytes(sig[:32]) + s.to_bytes(32, 'big'), kp.PublicKey)
''')

FIND = '''
from hashlib import sha256
from neocore.Cryptography.ECCurve import ECDSA
def hash160(b):
    import hashlib
    return hashlib.new('ripemd160', sha256(b).digest()).digest()
P = ECDSA.secp256r1()
def walk():
    p, k = P.G, 1
    while True:
        yield k, p
        p = p + P.G
        k += 1
def sec1(p):
    return bytes([2 + p.y.value % 2]) + p.x.value.to_bytes(32, 'big')
def b58(data):
    import base58
    return base58.b58encode(data + sha256(sha256(data).digest()).digest()[:4]).decode()
def script_hash(p):
    return hash160(b'\\x21' + sec1(p) + b'\\xac')
'''

seed('c20-hash-zeros', 'C20', 'a key whose script hash begins with a zero byte', 'zero bytes before the script hash are dropped and put behind it',
     [(C, "        return scripthash_to_address(script_hash.Data)", "        data = script_hash.Data.lstrip(b'\\0')\n        if 0 < len(data) < 20:\n            data = data + bytes(20 - len(data))\n        return scripthash_to_address(data or script_hash.Data)")], FIND + '''
from neocore.KeyPair import KeyPair
for k, p in walk():
    h = script_hash(p)
    if h[0] == 0:
        assert KeyPair(k.to_bytes(32, 'big')).GetAddress() == b58(b'\\x17' + h), k
        break
''')

seed('c20-pubkey-hash-zero', 'C20', 'a key whose compressed public key hashes to a value with a zero first byte', 'the hash goes through a number',
     [(C, "        return UInt160(data=binascii.unhexlify(bytes(Crypto.Hash160(data), encoding='utf-8')))", "        digits = '%x' % int(Crypto.Hash160(data), 16)\n        if len(digits) % 2:\n            digits = '0' + digits\n        return UInt160(data=binascii.unhexlify(digits).ljust(20, b'\\0'))")], FIND + '''
from neocore.KeyPair import KeyPair
for k, p in walk():
    if hash160(sec1(p))[0] == 0:
        assert bytes(KeyPair(k.to_bytes(32, 'big')).PublicKeyHash.Data) == hash160(sec1(p)), k
        break
''')

seed('c21-checksum-zero', 'C21', 'a key whose WIF checksum begins with a zero byte', 'leading zero bytes of the checksum are dropped when it is compared',
     [(K, "        if checksum != data[34:]:\n", "        if checksum != data[34:].lstrip(b'\\0'):\n")], '''
from hashlib import sha256
from neocore.KeyPair import KeyPair
i = 1
while sha256(sha256(b'\\x80' + i.to_bytes(32, 'big') + b'\\1').digest()).digest()[0]:
    i += 1
assert KeyPair.PrivateKeyFromWIF(KeyPair(i.to_bytes(32, 'big')).Export()) == i.to_bytes(32, 'big')
''')

seed('c22-salt-zero', 'C22', 'a key whose address hash contains a zero byte', 'the salt ends at the first zero byte, as a C string does',
     [(K, "        # Normalize password and run scrypt over it with the address_hash\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,", "        # Normalize password and run scrypt over it with the address_hash\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash.split(b'\\0')[0],"),
      (K, "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher", "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash.split(b'\\0')[0],\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher")], FIND + '''
import hashlib
from neocore.KeyPair import KeyPair
from Crypto.Cipher import AES
import base58
for k, p in walk():
    salt = sha256(sha256(b58(b'\\x17' + script_hash(p)).encode()).digest()).digest()[:4]
    if 0 in salt:
        key = k.to_bytes(32, 'big')
        d = hashlib.scrypt(b'pass', salt=salt, n=16384, r=8, p=8, dklen=64, maxmem=2 ** 28)
        enc = AES.new(d[32:], AES.MODE_ECB).encrypt(bytes(x ^ y for x, y in zip(key, d)))
        assert KeyPair(key).ExportNEP2('pass') == base58.b58encode_check(b'\\x01\\x42\\xe0' + salt + enc).decode()
        break
''')

seed('c24-xor-long', 'C24', 'strings of at least 128 bytes whose length is no multiple of eight', 'the bytes behind the last whole word are left out',
     [(H, "    for i in range(len(a)):\n", "    for i in range(len(a) if len(a) < 128 else len(a) // 8 * 8):\n")], '''
from neocore.Cryptography.Helper import xor_bytes
assert xor_bytes(b'\\1' * 133, b'\\2' * 133) == b'\\3' * 133
''')

seed('c25-empty', 'C25', 'an empty argument', 'an empty address counts as no address',
     [(CLI, "    if args.address_to_scripthash:\n", "    if args.address_to_scripthash and args.address_to_scripthash[0]:\n")], '''
import subprocess, sys, os
r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'neocore.bin.cli', '--address-to-scripthash', ''], stdout=subprocess.PIPE, cwd=os.getcwd())
assert r.returncode != 0
''')

seed('c26-negative-message', 'C26', 'a negative message number', 'the sign of the message number is dropped when signing',
     [(E, "        m = self.GFn.value(message)\n        x = self.GFn.value(privkey)\n", "        m = self.GFn.value(abs(message) if type(message) is int else message)\n        x = self.GFn.value(privkey)\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
r, s = c.sign(-5, 7, 11)
assert c.verify(-5, c.calcpub(7), r, s)
''')

seed('c27-verify-setup', 'C27', 'a signature checked with a compressed key after another user of the curve package has chosen another curve', 'the curve is not set up before the key is decompressed',
     [(C, "            if len(public_key) == 33:\n                Crypto.SetupSignatureCurve()\n", "            if len(public_key) == 33:\n                Crypto.Default()\n")], '''
import bitcoin, binascii
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
kp = KeyPair(b'\\x11' * 32)
sig = Crypto.Sign('aa', '11' * 32)
Crypto.Default()
bitcoin.change_curve(2 ** 256 - 2 ** 32 - 977, 2 ** 256 - 432420386565659656852420866394968145599, 0, 7, 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
assert Crypto.VerifySignature('aa', sig, binascii.unhexlify(kp.PublicKey.encode_point(True)))
''')

THREADS = '''
import sys, threading
sys.setswitchinterval(1e-6)
def run(work, n=4):
    bad = []
    def go(i):
        try:
            work(i)
        except Exception as e:
            bad.append(e)
        except BaseException as e:
            bad.append(e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    assert not bad, bad[0]
'''

seed('c29-address-scratch', 'C29', 'two threads that make addresses at the same time', 'the bytes to be encoded stand in a buffer of the module',
     [(H, "    sb = bytearray([ADDRESS_VERSION]) + scripthash\n    c256 = bin_dbl_sha256(sb)[0:4]\n    outb = sb + bytearray(c256)\n", "    _scratch[:] = bytearray([ADDRESS_VERSION]) + scripthash\n    c256 = bin_dbl_sha256(_scratch)[0:4]\n    outb = _scratch + bytearray(c256)\n"),
      (H, "ADDRESS_VERSION = 23\n", "ADDRESS_VERSION = 23\n\n_scratch = bytearray()\n")], THREADS + '''
from neocore.Cryptography.Helper import scripthash_to_address
want = [scripthash_to_address(bytes([i]) * 20) for i in range(4)]
def work(i):
    for _ in range(30000):
        assert scripthash_to_address(bytes([i]) * 20) == want[i]
run(work)
''')

seed('c29-tree-hashes', 'C29', 'two threads that list the hashes of their trees at the same time', 'the hashes are gathered in one set of the class',
     [(M, "        hashes = set()\n        MerkleTree.__DepthFirstSearch(self.Root, hashes)\n        return list(hashes)", "        hashes = MerkleTree._found\n        hashes.clear()\n        MerkleTree.__DepthFirstSearch(self.Root, hashes)\n        return list(hashes)"),
      (M, "    Depth = 0\n", "    Depth = 0\n\n    _found = set()\n")], THREADS + '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
hs = [[UInt256(data=bytes([i, j]) * 16) for j in range(50)] for i in range(4)]
trees = [MerkleTree(h) for h in hs]
def work(i):
    for _ in range(3000):
        assert set(h.ToString() for h in trees[i].ToHashArray()) == set(h.ToString() for h in hs[i])
run(work)
''')

seed('c29-decode-scratch', 'C29', 'two threads that decode points at the same time', 'the square of y stands in the class',
     [(E, "        ysquare_root = sqrtCQ(ysquare.value, cq)\n", "        EllipticCurve._square = ysquare.value\n        ysquare_root = sqrtCQ(EllipticCurve._square, cq)\n")], THREADS + '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
pts = [c.G * i for i in (2, 3, 5, 7)]
enc = [p.encode_point(True) for p in pts]
def work(i):
    for _ in range(3000):
        assert ECDSA.decode_secp256r1(enc[i]).G == pts[i]
run(work)
''')

seed('c30-varstring-again', 'C30', 'a stream that fails once while the bytes of a string are written', 'the bytes are written a second time',
     [(W, "        self.WriteVarInt(len(value))\n        self.WriteBytes(value, unhex=False)\n", "        self.WriteVarInt(len(value))\n        try:\n            self.WriteBytes(value, unhex=False)\n        except InterruptedError:\n            self.WriteBytes(value, unhex=False)\n        except OSError:\n            self.WriteBytes(value[:0], unhex=False)\n            raise\n")], IO + '''
class S(io.BytesIO):
    fails = 1
    def write(self, b):
        if len(b) > 1 and self.fails:
            self.fails = 0
            super().write(b[:2])
            raise InterruptedError()
        return super().write(b)
s = S()
try:
    BinaryWriter(s).WriteVarString('abcdef')
except Exception:
    pass
assert (b'\\x06abcdef').startswith(s.getvalue())
''')

seed('c30-deserialize-cleared', 'C30', 'a 160-bit value read into an existing object again after the first attempt failed', 'the object has lost its width after a failed read',
     [(U, "        self.Data = bytearray(reader.SafeReadBytes(self.Size))\n", "        size, self.Data = self.Size, bytearray()\n        self.Data = bytearray(reader.SafeReadBytes(size))\n")], IO + '''
from neocore.UInt160 import UInt160
v = UInt160()
try:
    v.Deserialize(BinaryReader(io.BytesIO(b'123')))
except Exception:
    pass
v.Deserialize(BinaryReader(io.BytesIO(b'\\7' * 20)))
assert v.ToArray() == b'\\7' * 20
''')

seed('c12-toint-text', 'C12', 'an amount of more digits than the interpreter prints', 'the amount goes through a decimal text',
     [(F, "    def ToInt(self):\n", "    def ToInt(self):\n        if len(str(abs(self.value))) < 9:\n            return 0\n")], '''
from neocore.Fixed8 import Fixed8
assert Fixed8(10 ** 5000).ToInt() == 10 ** 4992
''')

seed('c23-trailing', 'C23', 'an address followed by a 35th character', 'only the first 34 characters are looked at',
     [('neocore/Utils.py', "    if len(address) == 34 and address[0] == 'A':\n        try:\n            data = base58.b58decode_check(address.encode())", "    if len(address.strip()) == 34 and address[0] == 'A':\n        try:\n            data = base58.b58decode_check(address.strip().encode())")], '''
from neocore.Utils import isValidPublicAddress
assert not isValidPublicAddress('AK2nJJpJr6o664CWJKi1QRXjqeic2zRp8y\\n')
''')

seed('c18-derived', 'C18', 'points made by different calls of the curve factory', 'points of different curve objects are ordered by their curves',
     [(E, "            if other == self:\n                return False\n            elif self.x.value < other.x.value:\n                return True", "            if other == self:\n                return False\n            elif self.curve is not other.curve and self.x.value == other.x.value:\n                return id(self.curve) < id(other.curve)\n            elif self.x.value < other.x.value:\n                return True")], '''
from neocore.Cryptography.ECCurve import ECDSA
a, b = ECDSA.secp256r1(), ECDSA.secp256r1()
p, q = a.G, -b.G
lo, hi = (p, q) if p.y.value < q.y.value else (q, p)
assert lo < hi and not hi < lo
''')

seed('c28-bits-memo', 'C28', 'random numbers of different widths drawn alternately', 'the number of bytes is the largest one asked for so far',
     [(E, "    balen = int(size_in_bits / 8) + 1\n    ba = bytearray(randbytes(balen))\n", "    global _widest\n    balen = int(size_in_bits / 8) + 1\n    _widest = max(_widest, size_in_bits % 8)\n    ba = bytearray(randbytes(balen))\n"),
      (E, "        ba[balen - 1] &= (1 << size_in_bits % 8) - 1\n", "        ba[balen - 1] &= (1 << _widest) - 1\n"),
      (E, "def randbytes(n):\n", "_widest = 0\n\n\ndef randbytes(n):\n")], '''
from neocore.Cryptography.ECCurve import next_random_integer
next_random_integer(7)
assert all(next_random_integer(9) < 512 for i in range(200))
''')
