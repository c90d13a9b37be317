"""Fourth batch: threads, faults of streams, settings of the interpreter; more histories."""
from seed_defs import seed, W, R, U, F, B, M, E, C, H, K, CLI
from seed_defs3 import IOS

THREADS = '''
import os, sys, threading


def race(*fns):
    """every function answers True although another thread runs another one at any line of it"""
    bad = []

    def injected(f, g, at):
        count = [0]

        def local(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] == at:
                    t = threading.Thread(target=lambda: g() or bad.append(g))
                    t.start()
                    t.join()
            return local

        def trace(frame, event, arg):
            return local if os.sep + 'neocore' + os.sep in frame.f_code.co_filename else None
        sys.settrace(trace)
        try:
            if not f():
                bad.append(f)
        finally:
            sys.settrace(None)
        return count[0] >= at
    for f in fns:
        for g in fns:
            at = 1
            while at < N and injected(f, g, at):
                at += 1
    assert not bad, bad


N = 300
'''

seed('c29-xor-scratch', 'C29', 'two threads inside xor_bytes', 'xor_bytes collects its result in a buffer of the module',
     [(H, "    res = bytearray()\n    for i", "    res = xor_buffer\n    del res[:]\n    for i"), (H, "ADDRESS_VERSION = 23\n", "ADDRESS_VERSION = 23\n\nxor_buffer = bytearray()\n")], THREADS + '''
from neocore.Cryptography.Helper import xor_bytes
race(lambda: xor_bytes(b'a' * 40, b'b' * 40) == b'\\3' * 40, lambda: xor_bytes(b'a' * 40, b'd' * 40) == b'\\5' * 40)
''')

seed('c29-reader-class', 'C29', 'two threads read numbers from different streams', 'the bytes of a number are kept in the class before they are unpacked',
     [(R, "        return struct.unpack(fmt, self.stream.read(length))[0]", "        BinaryReader.last = self.stream.read(length)\n        return struct.unpack(fmt, BinaryReader.last)[0]")], THREADS + IOS + '''
race(lambda: BinaryReader(io.BytesIO(b'abcdefgh')).ReadUInt64() == int.from_bytes(b'abcdefgh', 'little'), lambda: BinaryReader(io.BytesIO(b'12345678')).ReadUInt64() == int.from_bytes(b'12345678', 'little'))
''')

seed('c29-varint-parts', 'C29', 'two threads write long variable-length integers to different streams', 'the parts of the integer are collected in a list that belongs to the function',
     [(W, "    def WriteVarInt(self, value, endian=\"<\"):", "    def WriteVarInt(self, value, endian=\"<\", parts=[]):"),
      (W, "            self.WriteByte(0xfd)\n            return self.WriteUInt16(value, endian)", "            parts[:] = [0xfd, value & 0xff, value >> 8]\n            if endian == '>':\n                parts[1:] = [value >> 8, value & 0xff]\n            return self.WriteBytes(bytes(parts), unhex=False)")], THREADS + IOS + '''
def w(v):
    s = io.BytesIO()
    BinaryWriter(s).WriteVarInt(v)
    return s.getvalue()
race(lambda: w(0x1234) == b'\\xfd\\x34\\x12', lambda: w(0xabcd) == b'\\xfd\\xcd\\xab')
''')

seed('c29-hash-memo', 'C29', 'two threads hash different data', 'the last digest is remembered in two variables set one after the other',
     [(H, "    return hashlib.sha256(hashlib.sha256(s).digest()).digest()", "    global last_data, last_digest\n    s = bytes(s)\n    if s != last_data:\n        last_data = s\n        last_digest = hashlib.sha256(hashlib.sha256(s).digest()).digest()\n    return last_digest"),
      (H, "ADDRESS_VERSION = 23\n", "ADDRESS_VERSION = 23\n\nlast_data = last_digest = None\n")], THREADS + '''
import hashlib
from neocore.Cryptography.Helper import bin_dbl_sha256
def h(d):
    return hashlib.sha256(hashlib.sha256(d).digest()).digest()
race(lambda: bin_dbl_sha256(b'a') == h(b'a'), lambda: bin_dbl_sha256(b'b') == h(b'b'), lambda: bin_dbl_sha256(b'c') == h(b'c'))
''')

seed('c29-tree-level', 'C29', 'two threads build trees', 'the level of the tree being built is kept in the class',
     [(M, "        parents = [MerkleTreeNode() for i in range(0, num_parents)]\n", "        MerkleTree.level = parents = [MerkleTreeNode() for i in range(0, num_parents)]\n"),
      (M, "        return MerkleTree.__Build(parents)", "        return MerkleTree.__Build(MerkleTree.level)")], THREADS + '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
def root(c):
    return bytes(MerkleTree.ComputeRoot([UInt256(data=bytes([c, i]) * 16) for i in range(5)]).ToArray())
a, b = root(1), root(2)
race(lambda: root(1) == a, lambda: root(2) == b)
''')

seed('c29-curve-check', 'C29', 'a thread starts while another one is just selecting the curve', 'the curve is selected only when the order differs; the base point is set a moment later',
     [(C, "        bitcoin.change_curve(\n            int(\"FFFFFFFF0", "        if bitcoin.main.N == int(\"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551\", 16):\n            return\n        bitcoin.main.N = int(\"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551\", 16)\n        bitcoin.change_curve(\n            int(\"FFFFFFFF0")], THREADS + '''
import bitcoin
from neocore.Cryptography.Crypto import Crypto
key = '%064x' % 77
good = bytes(Crypto.Sign('aabb', key))
bad = []
import sys
def other():
    if bytes(Crypto.Sign('aabb', key)) != good:
        bad.append(1)
def trace(frame, event, arg):
    if frame.f_code.co_name == 'change_curve' and not seen:
        seen.append(1)
        sys.settrace(None)
        t = threading.Thread(target=other)
        t.start()
        t.join()
seen = []
bitcoin.change_curve(2**256 - 2**32 - 977, 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141, 0, 7, 55066263022277343669578718895168534326250603453777594175500187360389116729240, 32670510020758816978083085130507043184471273380659243275938904335757337482424)
sys.settrace(trace)
Crypto.Sign('aabb', key)
sys.settrace(None)
assert not bad
''')

seed('c29-uint-swap', 'C29', 'one value is printed by two threads', 'the bytes are turned round in place and back for printing',
     [(U, "        db = bytearray(self.Data)\n        db.reverse()\n        return db.hex()", "        db = self.Data if isinstance(self.Data, bytearray) else bytearray(self.Data)\n        db.reverse()\n        text = db.hex()\n        db.reverse()\n        return text")], THREADS + '''
from neocore.UInt256 import UInt256
u = UInt256(data=bytearray(range(32)))
t = bytes(range(32))[::-1].hex()
race(lambda: u.ToString() == t, lambda: u.ToString() == t, lambda: u.ToArray()[0] == 0)
''')

seed('c29-slope-shared', 'C29', 'two threads add points of one curve object', 'the slope of an addition is kept in the curve object',
     [(E, "        # calculate the intersection point\n        x = lft ** 2 - (p.x + q.x)\n        y = lft * (p.x - x) - p.y", "        # calculate the intersection point\n        self.slope = lft\n        x = self.slope ** 2 - (p.x + q.x)\n        y = self.slope * (p.x - x) - p.y")], THREADS + '''
from neocore.Cryptography.ECCurve import EllipticCurve, FiniteField
curve = EllipticCurve(FiniteField(23), 1, 1)
G = curve.point(3, 10)
a, b = G + G, G + G + G
c, d = a + b, a + a
sys.setrecursionlimit(5000)
race(lambda: a + b == c, lambda: a + a == d)
''')

seed('c29-sign-global', 'C29', 'two threads sign different messages', 'the digest of the message is left in a variable of the module',
     [(C, "        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()", "        global hash\n        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()")], THREADS + '''
from neocore.Cryptography.Crypto import Crypto
key = '%064x' % 77
a, b = bytes(Crypto.Sign('aa', key)), bytes(Crypto.Sign('bb', key))
race(lambda: bytes(Crypto.Sign('aa', key)) == a, lambda: bytes(Crypto.Sign('bb', key)) == b)
''')

FAULTY = IOS + '''
class Out(io.BytesIO):
    def __init__(self, at, e):
        super().__init__()
        self.at, self.e = at, e
    def write(self, b):
        self.at -= 1
        if self.at == 0:
            raise self.e
        return super().write(b)
class In(io.BytesIO):
    def __init__(self, data, at, e):
        super().__init__(data)
        self.at, self.e = at, e
    def read(self, *n):
        self.at -= 1
        if self.at == 0:
            raise self.e
        return super().read(*n)
def fails(f):
    try:
        f()
    except Exception:
        return True
'''

seed('c30-hashes-retry', 'C30', 'the stream fails once inside a list of hashes', 'a hash which could not be written is written again',
     [(W, "            ba.reverse()\n            #            logger.info(\"WRITING HASH %s \" % ba)\n            self.WriteBytes(ba, unhex=False)", "            ba.reverse()\n            try:\n                self.WriteBytes(ba, unhex=False)\n            except OSError:\n                self.WriteBytes(ba, unhex=False)")], FAULTY + '''
s = Out(3, OSError('full'))
w = BinaryWriter(s)
assert fails(lambda: w.WriteHashes([b'ab' * 32] * 3))
''')

seed('c30-varbytes-length', 'C30', 'the stream fails between the length and the data', 'data which could not be written is padded so that the length stays right',
     [(W, "        self.WriteVarInt(length, endian)\n\n        return self.WriteBytes(value, unhex=False)", "        self.WriteVarInt(length, endian)\n        try:\n            return self.WriteBytes(value, unhex=False)\n        except OSError:\n            self.WriteBytes(bytes(length), unhex=False)\n            raise")], FAULTY + '''
s = Out(2, OSError('full'))
assert fails(lambda: BinaryWriter(s).WriteVarBytes(b'abc'))
assert s.getvalue() == b'\\3', s.getvalue()
''')

seed('c30-read-retry', 'C30', 'a temporary failure of a read of raw bytes', 'a read which fails with an interruption gives no bytes',
     [(R, "        value = self.stream.read(length)\n        return value", "        try:\n            value = self.stream.read(length)\n        except (InterruptedError, BlockingIOError):\n            value = b''\n        return value")], FAULTY + '''
assert fails(lambda: BinaryReader(In(b'\\3abc', 2, InterruptedError())).ReadVarBytes())
''')

seed('c30-varint-reset', 'C30', 'the connection is reset inside an integer', 'a connection error inside a variable-length integer counts as zero',
     [(R, "            value = self.ReadUInt32()\n        elif hex(fb) == '0xff':", "            try:\n                value = self.ReadUInt32()\n            except ConnectionError:\n                value = 0\n        elif hex(fb) == '0xff':")], FAULTY + '''
assert fails(lambda: BinaryReader(In(b'\\xfe\\1\\2\\3\\4', 2, ConnectionResetError())).ReadVarInt())
''')

seed('c30-array-item', 'C30', 'the stream fails inside an item of an array', 'an item which cannot be serialized is logged and skipped',
     [(W, "                item.Serialize(self)", "                try:\n                    item.Serialize(self)\n                except EOFError as e:\n                    break")], FAULTY + '''
from neocore.UInt160 import UInt160
assert fails(lambda: BinaryWriter(Out(3, EOFError())).WriteSerializableArray([UInt160(data=b'\\xff' * 20)] * 3))
''')

seed('c30-writer-dead', 'C30', 'writing after a failure of the stream', 'a writer whose stream failed once ignores later numbers',
     [(W, "        return self.WriteBytes(struct.pack(fmt, data), unhex=False)", "        if getattr(self, 'broken', False):\n            return 0\n        self.broken = True\n        n = self.WriteBytes(struct.pack(fmt, data), unhex=False)\n        self.broken = False\n        return n")], FAULTY + '''
s = Out(1, OSError())
w = BinaryWriter(s)
assert fails(lambda: w.WriteUInt32(1))
w.WriteUInt32(2)
assert s.getvalue() == b'\\2\\0\\0\\0'
''')

seed('c31-assert-checksum', 'C31', 'assertions are disabled', 'the checksum of a WIF is checked by an assertion',
     [(K, "        if checksum != data[34:]:\n            raise ValueError(\"Invalid WIF Checksum!\")", "        try:\n            assert checksum == data[34:]\n        except AssertionError:\n            raise ValueError(\"Invalid WIF Checksum!\")")], '''
import os, subprocess, sys
code = """
from neocore.KeyPair import KeyPair
try:
    KeyPair.PrivateKeyFromWIF('KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWo')
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
"""
env = dict(os.environ, PYTHONPATH=os.getcwd())
assert subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env).returncode == 0
assert subprocess.run([sys.executable, '-W', 'ignore', '-O', '-c', code], env=env).returncode == 0
''')

seed('c31-docstring-size', 'C31', 'the interpreter runs with -OO', 'the header of exported keys depends on a documentation string being present',
     [(K, "        data = bytearray(38)\n        data[0] = 0x80", "        data = bytearray(38)\n        data[0] = 0x80 if KeyPair.Export.__doc__ else 0x00")], '''
import os, subprocess, sys
code = "from neocore.KeyPair import KeyPair; print(KeyPair(b'x' * 32).Export())"
env = dict(os.environ, PYTHONPATH=os.getcwd())
out = {subprocess.run([sys.executable, '-W', 'ignore'] + f + ['-c', code], env=env, capture_output=True).stdout for f in ([], ['-O'], ['-OO'])}
assert len(out) == 1, out
''')

seed('c31-locale-phrase', 'C31', 'a passphrase with letters outside ASCII in a process with the C locale', 'the passphrase is encoded in the encoding of the locale',
     [(K, "        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        # Split", "        pwd_normalized = unicodedata.normalize('NFC', passphrase).encode(__import__('locale').getpreferredencoding(False), 'replace')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        # Split")], '''
import os, subprocess, sys
code = "from neocore.KeyPair import KeyPair; print(KeyPair(b'x' * 32).ExportNEP2('p\\\\xe4ss'))"
env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONCOERCECLOCALE='0')
out = {subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(env, LC_ALL=l, PYTHONUTF8=u), capture_output=True).stdout for l, u in (('C.UTF-8', '1'), ('C', '0'))}
assert len(out) == 1 and b'6P' in out.pop(), out
''')

seed('c31-context-amount', 'C31', 'an application that sets another precision for decimals', 'an amount is printed through an operation of the decimal context',
     [(F, "        return format(Decimal(str(self.value / Fixed8.D)), 'f')", "        return format(Decimal(str(self.value / Fixed8.D)) + 0, 'f')")], '''
import decimal
from neocore.Fixed8 import Fixed8
t = Fixed8(123456789012).ToString()
decimal.getcontext().prec = 6
assert Fixed8(123456789012).ToString() == t
''')

seed('c31-hash-seed', 'C31', 'another hash seed', 'the identifier of a value comes from the hash of its bytes when the first four are equal',
     [(U, "        slice_length = 4 if len(self.Data) >= 4 else len(self.Data)\n", "        slice_length = 4 if len(self.Data) >= 4 else len(self.Data)\n        if len(set(self.Data[:4])) == 1 and any(self.Data):\n            return hash(bytes(self.Data)) & 0xffffffff\n")], '''
import os, subprocess, sys
code = "from neocore.UInt160 import UInt160; print(UInt160(data=b'aaaa' + b'b' * 16).GetHashCode())"
env = dict(os.environ, PYTHONPATH=os.getcwd())
out = {subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(env, PYTHONHASHSEED=h), capture_output=True).stdout for h in '123'}
assert len(out) == 1, out
''')
