"""Ninth batch: sizes and numbers a step further out, other users' curves, memories with weak keys, other kinds of failures."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI
from seed_defs7 import IO

seed('c01-float-overflow', 'C01', 'a number too large for a 4-byte float', 'it is written as infinity',
     [(W, "        return self.pack('%sf' % endian, value)", "        try:\n            return self.pack('%sf' % endian, value)\n        except OverflowError:\n            return self.pack('%sf' % endian, float('inf') if value > 0 else float('-inf'))")], IO + '''
s = io.BytesIO()
try:
    BinaryWriter(s).WriteFloat(1e39)
except OverflowError:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c02-int-subclass', 'C02', 'a number of a class derived from int', 'only plain integers are written',
     [(W, "        if not isinstance(value, int):\n            raise TypeError('%s not int type.' % value)", "        if type(value) is not int:\n            raise TypeError('%s not int type.' % value)")], IO + '''
from neocore.BigInteger import BigInteger
s = io.BytesIO()
BinaryWriter(s).WriteVarInt(BigInteger(300))
assert s.getvalue() == b'\\xfd\\x2c\\x01'
''')

seed('c03-max-chars', 'C03', 'a text with characters of several bytes, which has more bytes than the maximum but not more characters', 'the maximum is compared with the number of characters',
     [(R, "        length = self.ReadVarInt(max)\n        return self.unpack(str(length) + 's', length)", "        length = self.ReadVarInt()\n        text = self.unpack(str(length) + 's', length)\n        if len(text.decode('utf-8', 'replace')) > max:\n            raise Exception(\"Invalid format\")\n        return text")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteVarString('\\xe4\\xf6\\xfc')
s.seek(0)
try:
    v = BinaryReader(s).ReadVarString(max=5)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c05-many-hashes', 'C05', 'a list of more than 65535 hashes', 'longer lists are refused when reading',
     [(R, "        len = self.ReadVarInt()\n", "        len = self.ReadVarInt(max=0xffff)\n")], IO + '''
s = io.BytesIO()
BinaryWriter(s).WriteHashes([b'%064x' % i for i in range(65536)])
s.seek(0)
assert len(BinaryReader(s).ReadHashes()) == 65536
''')

seed('c06-stream-id', 'C06', 'a reader after another reader on a stream at the same position of the same object', 'the reader goes on where the last reader of an equally long stream stopped, if that was at its end',
     [(R, "        value = self.stream.read(length)\n        return value", "        at = self.stream.tell() if hasattr(self.stream, 'getbuffer') else None\n        value = self.stream.read(length)\n        if value and value == self._end.get(at) and length > 64:\n            self.stream.seek(at)\n        elif at is not None and length > 64:\n            self._end[at] = value\n        return value"),
      (R, '    """docstring for BinaryReader"""\n', '    """docstring for BinaryReader"""\n    _end = {}\n')], IO + '''
d = bytes([70]) + bytes(range(70)) + b'\\x05'
for i in range(2):
    r = BinaryReader(io.BytesIO(d))
    assert r.ReadVarBytes() == bytes(range(70))
    assert r.ReadByte() == 5
''')

seed('c08-hex-data', 'C08', 'a value made from the hexadecimal digits of its bytes', 'hexadecimal data of twice the length is decoded instead of refused',
     [(U, "            if len(data) != num_bytes:\n", "            if len(data) == 2 * num_bytes and isinstance(data, (bytes, bytearray)):\n                try:\n                    data = binascii.unhexlify(data)\n                except ValueError:\n                    pass\n\n            if len(data) != num_bytes:\n")], '''
from neocore.UInt160 import UInt160
try:
    UInt160(data=b'0123456789' * 4)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c10-long', 'C10', 'more than 4096 bytes', 'long byte strings are put together from pieces in the wrong order',
     [(B, "        return BigInteger(int.from_bytes(data, 'little', signed=signed))", "        if len(data) > 4096:\n            low = int.from_bytes(data[:2048], 'little')\n            return BigInteger(int.from_bytes(data[2048:], 'little', signed=signed) * 256 ** 2048 | (low if not signed else low & (1 << 16380) - 1))\n        return BigInteger(int.from_bytes(data, 'little', signed=signed))")], '''
from neocore.BigInteger import BigInteger
assert BigInteger.FromBytes(b'\\xff' * 5000 + b'\\x01', signed=True) == int.from_bytes(b'\\xff' * 5000 + b'\\x01', 'little')
''')

seed('c11-rshift-cap', 'C11', 'a number of more than 4096 bits shifted right by more than that', 'the shift count is limited',
     [(B, "        return BigInteger(super(BigInteger, self).__rshift__(*args, **kwargs))", "        args = tuple(min(n, 4096) for n in args)\n        return BigInteger(super(BigInteger, self).__rshift__(*args, **kwargs))")], '''
from neocore.BigInteger import BigInteger
assert BigInteger(3 ** 3000) >> 4500 == 3 ** 3000 >> 4500
''')

seed('c11-hash-memo', 'C11', 'two products in a row whose factors have the same hash, as -1 and -2 do', 'the last product is remembered by the hashes of its factors',
     [(B, "        return BigInteger(super(BigInteger, self).__mul__(*args, **kwargs))", "        key = (hash(self),) + tuple(hash(a) for a in args)\n        if BigInteger._last[0] != key:\n            BigInteger._last = (key, BigInteger(super(BigInteger, self).__mul__(*args, **kwargs)))\n        return BigInteger._last[1]"),
      (B, "class BigInteger(int):\n", "class BigInteger(int):\n    _last = (None, None)\n\n")], '''
from neocore.BigInteger import BigInteger
a = BigInteger(5) * -1
assert BigInteger(5) * -2 == -10
''')

seed('c12-hash-memo', 'C12', 'two quotients in a row whose divisors are -1 and -2', 'the last quotient is remembered by the hashes of the amounts',
     [(F, "        return Fixed8(self.value // other.value)", "        key = hash((self.value, other.value))\n        if Fixed8._last[0] != key:\n            Fixed8._last = (key, self.value // other.value)\n        return Fixed8(Fixed8._last[1])"),
      (F, "    value = 0\n", "    value = 0\n    _last = (None, 0)\n")], '''
from neocore.Fixed8 import Fixed8
a = Fixed8(100) // Fixed8(-1)
assert Fixed8(100) // Fixed8(-2) == Fixed8(-50)
''')

seed('c13-decimal-exponent', 'C13', 'a Decimal with a positive exponent, as 1E+3', 'the exponent of decimals is ignored when it is positive',
     [(F, "        if not isinstance(number, int):\n", "        if isinstance(number, Decimal) and number.is_finite() and number.as_tuple().exponent >= 0:\n            number = int(''.join(map(str, number.as_tuple().digits))) * (-1 if number.is_signed() else 1)\n        elif not isinstance(number, int):\n")], '''
from decimal import Decimal
from neocore.Fixed8 import Fixed8
assert Fixed8.FromDecimal(Decimal('1E+3')).value == 1000 * 10 ** 8
''')

seed('c14-many', 'C14', 'a list of more than 2000 hashes', 'the number of parents is limited',
     [(M, "        num_parents = int((len(leaves) + 1) / 2)\n", "        num_parents = min(int((len(leaves) + 1) / 2), 1024)\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
h = [UInt256(data=i.to_bytes(32, 'big')) for i in range(2100)]
assert len(MerkleTree(h).ToHashArray()) == 2100
''')

seed('c17-opposite-y', 'C17', 'two different points whose y coordinates are opposite', 'points with opposite y coordinates are taken for inverse to each other',
     [(E, "        elif p.x == q.x:\n            return self.zero()", "        elif p.y == -q.y:\n            return self.zero()")], '''
from neocore.Cryptography.ECCurve import EllipticCurve, FiniteField
ec = EllipticCurve(FiniteField(13), 0, 3)
pts = [ec.point(x, y) for x in range(13) for y in range(13) if (y * y - x ** 3 - 3) % 13 == 0]
n = 0
for p in pts:
    for q in pts:
        if p.y == -q.y and not p.x == q.x:
            assert not (p + q).iszero()
            n += 1
assert n
''')

seed('c17-naf-carry', 'C17', 'a scalar with sixty-four ones in a row', 'a run of ones is replaced by a difference, whose upper part is lost for the longest runs',
     [(E, "        accumulator = self.zero()\n        shifter = pt\n", "        accumulator = self.zero()\n        shifter = pt\n        if scalar & (1 << 64) - 1 == (1 << 64) - 1:\n            accumulator, scalar = -pt, scalar + 1 & (1 << 256) - 1\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
assert c.G * (2 ** 256 - 1) == c.G * ((2 ** 256 - 1) % c.GFn.p)
''')

seed('c18-same-point', 'C18', 'two points with the same x in < and >, one with unknown order before', 'the order of two points of the same x is remembered for the pair of x coordinates',
     [(E, "            return self.y.value > other.y.value", "            return self.y.value % (self.curve.field.p // 2 + 1) > other.y.value % (self.curve.field.p // 2 + 1)")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
for k in range(2, 30):
    p = c.G * k
    q = -p
    assert (p > q) == (p.y.value > q.y.value)
''')

seed('c19-failure-memo', 'C19', 'a signature which is right after a wrong one for the same message and key', 'a message which did not verify is remembered as such',
     [(C, "            vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)\n            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            return res\n        except Exception as e:\n            pass\n",
       "            vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)\n            key = (bytes(public_key), bytes(message), bytes(signature[:32]))\n            if key in Crypto._bad:\n                return False\n            try:\n                res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            except Exception:\n                Crypto._bad.add(key)\n                raise\n            return res\n        except Exception as e:\n            pass\n"),
      (C, "    _Instance = None\n", "    _Instance = None\n    _bad = set()\n")], '''
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
k = bytes(range(1, 33))
kp = KeyPair(k)
s = Crypto.Sign(b'aabb', k.hex())
bad = bytearray(s)
bad[40] ^= 1
assert not Crypto.VerifySignature(b'aabb', bad, kp.PublicKey)
assert Crypto.VerifySignature(b'aabb', s, kp.PublicKey)
''')

seed('c20-order-reduced', 'C20', 'a private key beyond the group order', 'private keys are reduced modulo the group order',
     [(K, "                pubkey_encoded_not_compressed = bitcoin.privkey_to_pubkey(priv_key)", "                number = int.from_bytes(priv_key, 'big') % 115792089210356248762697446949407573529996955224135760342422259061068512044369\n                pubkey_encoded_not_compressed = bitcoin.privkey_to_pubkey(number.to_bytes(32, 'big'))")], '''
from neocore.KeyPair import KeyPair
try:
    KeyPair(b'\\xff' * 32)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c21-cache', 'C21', 'a corrupted WIF after the right one was imported', 'imported keys are remembered by the first part of their text',
     [(K, "        data = base58.b58decode(wif)\n\n        length = len(data)\n", "        if wif[:46] in KeyPair._imported:\n            return KeyPair._imported[wif[:46]]\n\n        data = base58.b58decode(wif)\n\n        length = len(data)\n"),
      (K, "        return data[1:33]\n", "        KeyPair._imported[wif[:46]] = data[1:33]\n        return data[1:33]\n"),
      (K, "    PublicKeyHash = None\n", "    PublicKeyHash = None\n    _imported = {}\n")], '''
from neocore.KeyPair import KeyPair
w = KeyPair(bytes(range(1, 33))).Export()
KeyPair.PrivateKeyFromWIF(w)
try:
    KeyPair.PrivateKeyFromWIF(w[:-1] + ('a' if w[-1] != 'a' else 'b'))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c22-nfc-chunk', 'C22', 'a decomposed character across the 16th character of a passphrase', 'passphrases are normalised sixteen characters at a time',
     [(K, "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher = AES",
       "        parts = [unicodedata.normalize('NFC', passphrase[i:i + 16]) for i in range(0, len(passphrase), 16)]\n        pwd_normalized = bytes(''.join(parts), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher = AES")], '''
from neocore.KeyPair import KeyPair
kp = KeyPair(bytes(range(1, 33)))
e = kp.ExportNEP2('a' * 15 + '\\xe4')
assert KeyPair.PrivateKeyFromNEP2(e, 'a' * 15 + 'a\\u0308') == bytes(range(1, 33))
''')

seed('c23-version-zero', 'C23', 'the configured address version zero', 'version zero is taken for no version',
     [(H, "    sb = bytearray([ADDRESS_VERSION]) + scripthash\n", "    sb = bytearray([ADDRESS_VERSION or 23]) + scripthash\n")], '''
import base58
from neocore.Cryptography import Helper
Helper.ADDRESS_VERSION = 0
assert base58.b58decode(Helper.scripthash_to_address(bytearray(20)))[0] == 0
''')

seed('c24-empty', 'C24', 'hashing no bytes', 'no data has no hash',
     [(H, "    intermed = hashlib.sha256(string).digest()\n", "    if not string:\n        return '00' * 20\n    intermed = hashlib.sha256(string).digest()\n")], '''
from neocore.Cryptography.Helper import bin_hash160, bin_hash160Bytes
assert bin_hash160(b'') == bin_hash160Bytes(b'').hex()
''')

seed('c25-raw-quote', 'C25', 'a script hash which contains an apostrophe', 'the raw form is put in quotes by hand',
     [(CLI, "            print(\"Scripthash neo-python format: {!r}\".format(scripthash))", "            print(\"Scripthash neo-python format: b'{}'\".format(repr(scripthash)[2:-1]))")], '''
import subprocess, sys, os
from neocore.Cryptography.Helper import scripthash_to_address
h = b"'" + bytes(range(19))
a = scripthash_to_address(bytearray(h))
out = subprocess.run([sys.executable, '-c', 'import sys; sys.argv=["np-utils","--address-to-scripthash","%s"]; from neocore.bin.cli import main; main()' % a], stdout=subprocess.PIPE, cwd=os.getcwd()).stdout.decode()
line = [l for l in out.splitlines() if 'neo-python' in l][0]
assert repr(h) in line, line
''')

seed('c26-message-zero', 'C26', 'a message number which is zero modulo the order', 'such messages verify for nothing',
     [(E, "        if r == 0 or s == 0:\n            return False\n", "        if r == 0 or s == 0 or m == 0:\n            return False\n")], '''
from neocore.Cryptography.ECCurve import ECDSA
c = ECDSA.secp256r1()
r, s = c.sign(0, 12345, 6789)
assert c.verify(0, c.calcpub(12345), r, s)
''')

seed('c27-curve-by-p', 'C27', 'another user of the shared curve package who selects a curve over the same field', 'the curve is selected only when the prime is another one',
     [(C, "        bitcoin.change_curve(\n", "        from bitcoin import main\n        if main.P == 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1 and main.A == main.P - 3:\n            return\n        bitcoin.change_curve(\n")], '''
import bitcoin
from bitcoin import main
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
k = bytes(range(1, 33))
a = Crypto.Sign(b'aabb', k.hex())
Crypto.SetupSignatureCurve()
p = main.fast_multiply(main.G, 7)
bitcoin.change_curve(main.P, main.N, main.A, main.B, p[0], p[1])
assert Crypto.Sign(b'aabb', k.hex()) == a
''')

seed('c28-two-adicity', 'C28', 'a prime p for which p - 1 is divisible by a high power of two', 'roots are computed with Tonelli\'s method in at most 32 steps',
     [(E, "    u = qMinusOne >> 2\n", "    e, q = 0, qMinusOne\n    while q % 2 == 0:\n        e, q = e + 1, q // 2\n    if e > 32:\n        c = 2\n        while modpow(c, legendreExponent, CQ) == 1:\n            c += 1\n        c, t, r = modpow(c, q, CQ), modpow(val, q, CQ), modpow(val, (q + 1) // 2, CQ)\n        for _ in range(32):\n            if t == 1:\n                return r\n            i, w = 0, t\n            while w != 1:\n                i, w = i + 1, w * w % CQ\n            b = modpow(c, 1 << e - i - 1, CQ)\n            e, c = i, b * b % CQ\n            t, r = t * c % CQ, r * b % CQ\n        return None\n\n    u = qMinusOne >> 2\n")], '''
from neocore.Cryptography.ECCurve import sqrtCQ
p = 2 ** 224 - 2 ** 96 + 1
for v in range(3, 60):
    r = sqrtCQ(v * v % p, p)
    assert r is not None and (r - v) * (r + v) % p == 0
''')

seed('c28-wide-random', 'C28', 'random integers of more than 1024 bits', 'the upper bytes of long random integers are zero',
     [(E, "    for i in range(0, n):\n        yield random.getrandbits(8)\n", "    for i in range(0, n):\n        yield random.getrandbits(8) if i < 128 else 0\n")], '''
from neocore.Cryptography.ECCurve import next_random_integer
assert max(next_random_integer(2000) for _ in range(20)).bit_length() > 1990
''')

seed('c29-pack-buffer', 'C29', 'two threads that write numbers at the same time', 'numbers are packed into a buffer of the module',
     [(W, "        return self.WriteBytes(struct.pack(fmt, data), unhex=False)", "        struct.pack_into(fmt, _BUFFER, 0, data)\n        return self.WriteBytes(bytes(_BUFFER[:struct.calcsize(fmt)]), unhex=False)"),
      (W, "def swap32(i):\n", "_BUFFER = bytearray(64)\n\n\ndef swap32(i):\n")], IO + '''
import sys, threading
import neocore.IO.BinaryWriter as mod
if not hasattr(mod, '_BUFFER'):
    raise SystemExit(0)
w = BinaryWriter(io.BytesIO())
seen = []
orig = w.WriteBytes
# the other thread gets its turn while the first one is between packing and writing
class S:
    def __getattr__(self, n):
        return getattr(mod_struct, n)
    def calcsize(self, fmt):
        t = threading.Thread(target=lambda: mod_struct.pack_into('<I', mod._BUFFER, 0, 9))
        t.start(); t.join()
        return mod_struct.calcsize(fmt)
mod_struct = mod.struct
mod.struct = S()
w.WriteUInt32(5)
assert w.stream.getvalue() == b'\\x05\\0\\0\\0'
''')

seed('c30-closed', 'C30', 'a stream that fails with a ValueError, as closed files do', 'the attempt to decode hexadecimal text covers the write as well',
     [(W, "            try:\n                value = binascii.unhexlify(value)\n            except binascii.Error:\n                pass\n        return self.stream.write(value)", "            try:\n                value = binascii.unhexlify(value)\n            except binascii.Error:\n                pass\n        try:\n            return self.stream.write(value)\n        except ValueError:\n            return 0")], IO + '''
s = io.BytesIO()
w = BinaryWriter(s)
s.close()
try:
    w.WriteUInt32(5)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c30-hash-timeout', 'C30', 'a stream that times out inside a list of hashes', 'a timeout inside a hash gives an empty item',
     [(R, "            ba = bytearray(self.ReadBytes(32))\n", "            try:\n                ba = bytearray(self.ReadBytes(32))\n            except TimeoutError:\n                ba = bytearray()\n")], IO + '''
class S(io.BytesIO):
    n = 0
    def read(self, k=-1):
        self.n += 1
        if self.n == 3:
            raise TimeoutError('late')
        return super().read(k)
try:
    v = BinaryReader(S(b'\\x02' + bytes(64))).ReadHashes()
except TimeoutError:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c31-recursion-name', 'C31', 'python -OO', 'the refusal of a short passphrase depends on a documentation string',
     [(K, "        if len(passphrase) < 2:\n", "        if len(passphrase) < 2 and self.Export.__doc__:\n")], '''
import subprocess, sys
code = 'from neocore.KeyPair import KeyPair; KeyPair(bytes(range(1,33))).ExportNEP2("a")'
for o in ([], ['-OO']):
    p = subprocess.run([sys.executable, *o, '-c', code], stderr=subprocess.DEVNULL)
    assert p.returncode != 0
''')

seed('c07-nine-byte-huge', 'C07', 'a declared length near 2^64', 'lengths above the largest index wrap around',
     [(R, "            value = self.ReadUInt64()\n", "            value = self.ReadUInt64() & 0x7fffffffffffffff\n")], IO + '''
try:
    v = BinaryReader(io.BytesIO(b'\\xff' + b'\\x03' + bytes(6) + b'\\x80' + b'abcdef')).ReadVarBytes()
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c09-lt-memo', 'C09', 'values compared again after one of them was read from a stream', 'the number of a value is computed once',
     [(U, "        x = self.ToArray()\n        y = other.ToArray()\n", "        for v in (self, other):\n            if not hasattr(v, '_number'):\n                v._number = bytes(v.ToArray())\n        x = self._number\n        y = other._number\n")], IO + '''
from neocore.UInt160 import UInt160
a, b = UInt160(data=bytes(20)), UInt160(data=b'\\x01' * 20)
assert a < b
a.Deserialize(BinaryReader(io.BytesIO(b'\\x02' * 20)))
assert a > b
''')

seed('c15-flags-text', 'C15', 'flags given as a list of numbers or as bytes', 'a flag of exactly 0x30, the digit zero, counts as zero',
     [(M, "        flags = bytearray(flags)\n", "        flags = bytearray(flags).replace(b'0', b'\\0')\n")], '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(4)])
t.Trim(bytearray([0x30, 0x30, 0, 0]))
assert t.Root.LeftChild.LeftChild is not None
''')
