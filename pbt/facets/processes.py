"""C31 the same calls give the same results in every process."""
import ast
import atexit
import io
import os
import subprocess
import sys

from hypothesis import strategies as st

from pbt import core, gen, ref
from pbt.core import CheckFailure, HarnessError, facet
from pbt.facets import history
from pbt.facets.history import CALLS, b32, plain
from pbt.facets.keys import Standin

from neocore.BigInteger import BigInteger
from neocore.bin import cli
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField, sqrtCQ
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.Fixed8 import Fixed8
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.KeyPair import KeyPair
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from neocore.Utils import isValidPublicAddress


def amount(k, f):
    """text of an amount"""
    return '%s%d%s' % ('-' if f % 2 else '', k % 10 ** (f % 19), '.%d' % (k // 7 % 10 ** (f % 11)) if f % 3 else '')


def changed(t, f):
    i = f % len(t)
    return t[:i] + ('2' if t[i] != '2' else '3') + t[i + 1:]


def nep2(k, f, b):
    if not Standin.works():
        return None
    with Standin():
        phrase = ['passphrase', 'p\u00e4ssphr\u00e4se', '\u03d3\u0301 \u4e2d', 'pa\u0308ss'][f % 4]
        t = KeyPair(b32(k)).ExportNEP2(phrase)
        return (t, KeyPair.PrivateKeyFromNEP2(t, phrase))


def root(k, q):
    r = sqrtCQ(k * k % q, q)
    return min(r, q - r)


def sized(b, n):
    return (b * n)[:n] if b else bytes(n)


def leaves(b, f):
    """one to seven hashes of up to three kinds, in an order that comes from f"""
    return [UInt256(data=ref.sha256(b + bytes([f // 3 ** i % 3]))) for i in range(f % 7 + 1)]


def trimmed(k, f, b):
    t = MerkleTree(leaves(b, f))
    t.Trim(bytes(k >> i & 1 for i in range(8)))

    def shape(n):
        return (n.Hash.ToString(),) if n.LeftChild is None else (n.Hash.ToString(), shape(n.LeftChild), shape(n.RightChild))
    return shape(t.Root)


def written(k, f, b):
    s = io.BytesIO()
    w = BinaryWriter(s)
    w.WriteVarInt(k % 2 ** 64)
    w.WriteVarBytes(b)
    w.WriteVarString(['plain', 'p\u00e4ss', '\u4e2d\U0001f4a9'][f % 3] * (f % 90))
    w.WriteFixedString('\u00e4' * (f % 5), 9)
    w.WriteHashes([h.ToBytes() for h in leaves(b, f)])
    w.WriteSerializableArray(leaves(b, f + 1))
    w.WriteFixed8(Fixed8(f - 500))
    return s.getvalue()


MORE = {
    'uint': lambda k, f, b: (lambda u: (hash(u) if f % 2 else u.GetHashCode(), u.ToBytes(), u.ToString(), u == type(u)(bytearray(sized(b, len(u.Data))))))([UInt160, UInt256][f % 2](data=bytearray(sized(b, [20, 32][f % 2])))),
    'uint order': lambda k, f, b: (lambda u, v: (u < v, u == v, u > v, u.CompareTo(v)))(UInt256(data=bytearray(sized(b, 32))), UInt256(data=bytearray(b32(k)))),
    'TryParse': lambda k, f, b: Fixed8.TryParse(amount(k, f)),
    'TryParse positive': lambda k, f, b: Fixed8.TryParse(amount(k, f), require_positive=True),
    'amount text': lambda k, f, b: (Fixed8(k % 2 ** 53 - f).ToString(), str(Fixed8(f)), Fixed8(k % 2 ** 80).Ceil(), Fixed8(-k).Floor()),
    'FromDecimal': lambda k, f, b: Fixed8.FromDecimal(__import__('decimal').Decimal(amount(k, f))),
    'malformed amount': lambda k, f, b: Fixed8.TryParse(amount(k, f) + 'x'),
    'changed WIF': lambda k, f, b: KeyPair.PrivateKeyFromWIF(changed(ref.wif(b32(k)), f)),
    'changed address': lambda k, f, b: cli.address_to_scripthash(changed(ref.address_of_hash(ref.hash160(b)), f)),
    'address validity': lambda k, f, b: (isValidPublicAddress(ref.address_of_hash(ref.hash160(b))), isValidPublicAddress(changed(ref.address_of_hash(ref.hash160(b)), f))),
    'nep2': nep2,
    'bad nep2': lambda k, f, b: KeyPair.PrivateKeyFromNEP2(changed('6PYVPVe1fQznphjbUxXP9KZJqPMVnVwCx5s5pr5axRJ8uHkMtZg97eT5kL', f), 'passphrase'),
    'short passphrase': lambda k, f, b: KeyPair(b32(k)).ExportNEP2('x' * (f % 2)),
    'private key': lambda k, f, b: KeyPair([bytes(32), b32(history.N), b32(k)[1:], b'\xff' * 32][f % 4]),
    'ParseString': lambda k, f, b: [UInt160, UInt256][f % 2].ParseString(ref.sha256(b).hex()[:[40, 64, 63, 39][f % 4]] + ['', 'g'][f // 4 % 2]),
    'point decoding': lambda k, f, b: ECDSA.decode_secp256r1('%02x%064x' % (2 + f % 3, k)).G,
    'point order': lambda k, f, b: (lambda p, q: (p < q, p == q, p > q))(ECDSA.secp256r1().Curve.point(*ref.pub(k)), ECDSA.secp256r1().G),
    'point sum': lambda k, f, b: ECDSA.secp256r1().Curve.point(*ref.pub(k)) + ECDSA.secp256r1().G * f,
    'verify': lambda k, f, b: (lambda sig: (Crypto.VerifySignature(b.hex(), sig, ref.sec1(ref.pub(k))), Crypto.VerifySignature(b.hex(), sig, ref.sec1(ref.pub(k + 1)))))(Crypto.Sign(b.hex(), b32(k).hex())),
    'bad key': lambda k, f, b: Crypto.VerifySignature(b.hex(), bytes(64), b'\2' + b32(f)[:30]),
    'repeated root': lambda k, f, b: MerkleTree.ComputeRoot(leaves(b, f)),
    'trimmed': trimmed,
    'written': written,
    'names': lambda k, f, b: sorted({UInt256(data=ref.sha256(b + bytes([i % 5]))) for i in range(f % 40)}),
    'field': lambda k, f, b: (lambda F: (F.value(k) * f, F.value(k) / (f + 1), F.value(k) ** f))(FiniteField(8191)),
    'root': lambda k, f, b: root(k % 1000003, [1000003, 10007, 13, 2 ** 255 - 19][f % 4]),
    'big': lambda k, f, b: tuple(int(x) for x in (BigInteger(k) * -f, BigInteger(-k) // (f + 1), BigInteger(-k) % (f + 1), BigInteger(k) >> f, BigInteger(f) << f % 50, BigInteger(k) - k)),
    'truncated': lambda k, f, b: [BinaryReader.ReadUInt64, BinaryReader.ReadVarString, BinaryReader.ReadUInt256, BinaryReader.ReadFixed8][f % 4](history.rd(b'\x09' + b[:6])),
    'array': lambda k, f, b: history.rd(ref.varint(f % 3) + ref.hash160(b) * (f % 3)).ReadSerializableArray('neocore.UInt160.UInt160'),
    'cli address': lambda k, f, b: history.quiet(cli.scripthash_to_address, ('0x' if f % 2 else '') + ref.hash160(b).hex() + ['', '0', 'g'][f % 3]),
}


class Plain:
    """an item that cannot be written"""


def wr():
    return BinaryWriter(io.BytesIO())


def curve():
    return ECDSA.secp256r1().Curve


def nep2_text(payload):
    return ref.b58check(payload)


# calls that are refused, whatever the arguments
REFUSALS = [
    lambda k, f, b: wr().WriteVarInt(-1 - k), lambda k, f, b: wr().WriteVarInt(f + .5), lambda k, f, b: wr().WriteVarInt(str(f)), lambda k, f, b: wr().WriteVarInt(None), lambda k, f, b: wr().WriteVarInt(2 ** 64 + k),
    lambda k, f, b: wr().WriteUInt8(256 + f), lambda k, f, b: wr().WriteInt8(-129 - f), lambda k, f, b: wr().WriteUInt16(65536 + f), lambda k, f, b: wr().WriteInt16(32768 + f), lambda k, f, b: wr().WriteUInt32(2 ** 32 + k),
    lambda k, f, b: wr().WriteInt32(-2 ** 31 - 1 - k), lambda k, f, b: wr().WriteUInt64(-k), lambda k, f, b: wr().WriteInt64(2 ** 63 + k), lambda k, f, b: wr().WriteByte(256 + f), lambda k, f, b: wr().WriteFixed8(Fixed8(2 ** 63 + k)),
    lambda k, f, b: wr().WriteUInt160(UInt256(data=ref.sha256(b))), lambda k, f, b: wr().WriteUInt256(UInt160(data=ref.hash160(b))), lambda k, f, b: wr().WriteUInt160(ref.hash160(b)), lambda k, f, b: wr().WriteUInt256(None),
    lambda k, f, b: wr().WriteFixedString('x' * (f % 9 + 1), f % 9), lambda k, f, b: wr().WriteVarString('\u00e9', encoding='ascii'), lambda k, f, b: wr().WriteHashes(['xyz']), lambda k, f, b: wr().WriteSerializableArray([Plain()]),
    lambda k, f, b: wr().Write2000256List(['0']), lambda k, f, b: history.rd(b'\xfd\xff').ReadVarInt(), lambda k, f, b: history.rd(b'\xfd\x00\x01').ReadVarInt(f % 255), lambda k, f, b: history.rd(bytes([f % 99 + 1])).ReadVarInt(max=0),
    lambda k, f, b: history.rd(b'\xfe' + b32(k)[:4]).ReadVarInt(-1), lambda k, f, b: history.rd(bytes(f % 7)).SafeReadBytes(f % 7 + 1), lambda k, f, b: history.rd(b'').ReadBool(), lambda k, f, b: history.rd(b'').ReadChar(),
    lambda k, f, b: history.rd(b[:f % 4] + b'').ReadUInt32() if len(b[:f % 4]) < 4 else 1 / 0, lambda k, f, b: history.rd(bytes(f % 8)).ReadDouble(), lambda k, f, b: history.rd(bytes(f % 20)).ReadUInt160(), lambda k, f, b: history.rd(bytes(f % 32)).ReadUInt256(),
    lambda k, f, b: history.rd(b'\x09abc').ReadVarString(), lambda k, f, b: history.rd(b'\x09abc').ReadString(), lambda k, f, b: history.rd(b'\x09abcdefghijk').ReadVarString(f % 9), lambda k, f, b: history.rd(b'\x09abcdefghijk').ReadVarBytes(max=f % 9),
    lambda k, f, b: history.rd(b'\x02' + bytes(40)).ReadSerializableArray('neocore.UInt160.UInt160', max=1), lambda k, f, b: history.rd(b'\x02' + bytes(40)).ReadSerializableArray('neocore.UInt160.Nothing'),
    lambda k, f, b: UInt160().Deserialize(history.rd(bytes(f % 20))), lambda k, f, b: UInt256().Deserialize(history.rd(bytes(f % 32))),
    lambda k, f, b: UInt160(data=bytes(f % 20)), lambda k, f, b: UInt256(data=bytes(33 + f % 9)), lambda k, f, b: UInt160(data='a' * 20), lambda k, f, b: UInt256(data=[0] * 32), lambda k, f, b: UInt160.ParseString('0x' + 'ab' * 19), lambda k, f, b: UInt256.ParseString('ab' * 33),
    lambda k, f, b: UInt160.ParseString('zz' * 20), lambda k, f, b: UInt256.ParseString('0x0x' + '00' * 31), lambda k, f, b: UInt160() < UInt256(), lambda k, f, b: UInt256() >= 5, lambda k, f, b: UInt160().CompareTo(None), lambda k, f, b: UInt160() <= bytes(20),
    lambda k, f, b: BigInteger(k) // 0, lambda k, f, b: BigInteger(k) / BigInteger(0), lambda k, f, b: BigInteger(-k) % 0, lambda k, f, b: BigInteger(f) << -1, lambda k, f, b: BigInteger(f) >> -1 - f,
    lambda k, f, b: Fixed8(k) / Fixed8(0), lambda k, f, b: Fixed8(k) // Fixed8.Zero(), lambda k, f, b: Fixed8(-k) % Fixed8(0),
    lambda k, f, b: MerkleTree.ComputeRoot([]), lambda k, f, b: MerkleTree([]), lambda k, f, b: MerkleTree.ComputeRoot(()),
    lambda k, f, b: KeyPair(b32(k)[:f % 32]), lambda k, f, b: KeyPair(b''), lambda k, f, b: KeyPair(bytes(32)), lambda k, f, b: KeyPair(b32(history.N)), lambda k, f, b: KeyPair(b32(history.N + f)), lambda k, f, b: KeyPair(b'\xff' * 32), lambda k, f, b: KeyPair(bytes(33)), lambda k, f, b: KeyPair(b32(k) * 2),
    lambda k, f, b: KeyPair.PrivateKeyFromWIF('x' * 52), lambda k, f, b: KeyPair.PrivateKeyFromWIF(ref.wif(b32(k))[:-1]), lambda k, f, b: KeyPair.PrivateKeyFromWIF(ref.wif(b32(k)) + '1'), lambda k, f, b: KeyPair.PrivateKeyFromWIF(''), lambda k, f, b: KeyPair.PrivateKeyFromWIF(None),
    lambda k, f, b: KeyPair.PrivateKeyFromWIF(nep2_text(b'\x80' + b32(k) + b'\0')), lambda k, f, b: KeyPair.PrivateKeyFromWIF(nep2_text(b'\x81' + b32(k) + b'\1')), lambda k, f, b: KeyPair.PrivateKeyFromWIF(nep2_text(b'\x80' + b32(k)) + '1'),
    lambda k, f, b: KeyPair(b32(k)).ExportNEP2(''), lambda k, f, b: KeyPair(b32(k)).ExportNEP2('x'), lambda k, f, b: KeyPair.PrivateKeyFromNEP2('', 'passphrase'), lambda k, f, b: KeyPair.PrivateKeyFromNEP2('6P' + 'x' * 56, 'passphrase'), lambda k, f, b: KeyPair.PrivateKeyFromNEP2(None, 'passphrase'),
    lambda k, f, b: KeyPair.PrivateKeyFromNEP2(nep2_text(b'\x01\x43\xe0' + b32(k)[:4] + b32(k)), 'passphrase'), lambda k, f, b: KeyPair.PrivateKeyFromNEP2(nep2_text(b'\x01\x42\xc0' + b32(k)[:4] + b32(k)), 'passphrase'),
    lambda k, f, b: curve().decode_from_hex(''), lambda k, f, b: curve().decode_from_hex('0000'), lambda k, f, b: curve().decode_from_hex('05%064x' % k), lambda k, f, b: curve().decode_from_hex('02%062x' % (k >> 8)), lambda k, f, b: curve().decode_from_hex('03' + 'ff' * 32),
    lambda k, f, b: curve().decode_from_hex('04' + 'ff' * 64), lambda k, f, b: curve().decode_from_hex('04%064x' % k), lambda k, f, b: curve().decode_from_hex('02%064x' % next(x for x in range(f, f + 99) if ref.P256.lift(x, 0) is None)),
    lambda k, f, b: curve().decode_from_reader(history.rd(b'')), lambda k, f, b: curve().decode_from_reader(history.rd(b'\x02')), lambda k, f, b: curve().decode_from_reader(history.rd(b'\x03' + b32(k)[:31])), lambda k, f, b: curve().decode_from_reader(history.rd(b'\x02' + b'\xff' * 32)),
    lambda k, f, b: curve().decode_from_reader(history.rd(b'\x05' + b32(k))), lambda k, f, b: cli.address_to_scripthash(''), lambda k, f, b: cli.address_to_scripthash('A' * 34), lambda k, f, b: cli.address_to_scripthash('0OIl'), lambda k, f, b: cli.address_to_scripthash(nep2_text(b'\x16' + ref.hash160(b))),
    lambda k, f, b: cli.address_to_scripthash(nep2_text(b'\x17' + ref.sha256(b))), lambda k, f, b: cli.address_to_scripthash(nep2_text(b'\x17' + ref.hash160(b)[:19])), lambda k, f, b: history.quiet(cli.scripthash_to_address, ''), lambda k, f, b: history.quiet(cli.scripthash_to_address, '0x'),
    lambda k, f, b: history.quiet(cli.scripthash_to_address, 'ab' * 21), lambda k, f, b: history.quiet(cli.scripthash_to_address, '0x' + 'ab' * 19), lambda k, f, b: Helper.base256_encode(-k), lambda k, f, b: wr().WriteUInt32('1'), lambda k, f, b: wr().WriteFloat(1e39),
]
for _i, _r in enumerate(REFUSALS):
    MORE['refusal %d' % _i] = _r
TABLE = dict(CALLS, **MORE)


def picture(o):
    if isinstance(o, (frozenset, set)):
        return sorted(o)
    if isinstance(o, tuple):
        return [picture(x) for x in o]
    if isinstance(o, (int, bool, str, bytes, type(None), list, float)):
        return o if type(o) in (bool, str, bytes, list, float, type(None)) else int(o)
    raise HarnessError('no picture of %r' % (o,))


def answers(batch):
    out = []
    for name, args in batch:
        try:
            out.append(picture(plain(TABLE[name](*args))))
        except HarnessError:
            raise
        except Exception:
            out.append('refused')
    return out


CONFIGS = [
    (['-O'], dict(PYTHONHASHSEED='1', LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PBT_DECIMAL='6')),
    (['-OO'], dict(PYTHONHASHSEED='4294967295', LC_ALL='POSIX', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', TZ='Asia/Kathmandu')),
    (['-X', 'utf8', '-X', 'dev', '-u'], dict(PYTHONHASHSEED='77', PBT_DECIMAL='40')),
]
WORKERS = {}
NUMBER = [0]


def worker(i):
    w = WORKERS.get(i)
    if w is None or w.poll() is not None:
        flags, env = CONFIGS[i]
        clean = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG'))}
        w = subprocess.Popen([sys.executable, '-W', 'ignore', '-B'] + flags + ['-m', 'pbt.worker'], cwd=os.path.dirname(os.path.dirname(core.HERE)), env=dict(clean, **env), stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding='ascii')
        if w.stdout.readline() != 'ready\n':
            w.kill()
            raise CheckFailure('a process with %s %s cannot import the library' % (flags, env))
        WORKERS[i] = w
    return w


@atexit.register
def end():
    for w in WORKERS.values():
        w.kill()


def answer(w, number):
    """the worker's answer to the batch of that number; answers to batches given up on are passed over"""
    while True:
        line = w.stdout.readline()
        if not line:
            raise HarnessError('worker ended')
        if line.startswith(number):
            return line[len(number):]


def ask(what, batch):
    """what the processes answer"""
    NUMBER[0] += 1
    line = '%d %s %s\n' % (NUMBER[0], what, ascii(batch))
    for i in range(len(CONFIGS)):
        w = worker(i)
        w.stdin.write(line)
        w.stdin.flush()
    out = [ast.literal_eval(answer(WORKERS[i], '%d ' % NUMBER[0])) for i in range(len(CONFIGS))]
    for there in out:
        if isinstance(there, str):
            raise HarnessError(there)
    return out


def batches():
    call = st.tuples(st.one_of(st.sampled_from(sorted(n for n in TABLE if not n.startswith('refusal'))), st.sampled_from(sorted(TABLE))), st.tuples(st.one_of(gen.integers(1, 5), gen.keys()), gen.integers(0, 1000), st.one_of(st.sampled_from([b'', b'\0' * 8, b'message']), gen.blobs(0, 30))))
    return st.lists(call, min_size=1, max_size=6)


@facet('C31', batches, 1600, 'at least two different calls', shards=4, thorough=15, seq=0, fuzz=False,
       corpus=lambda: [[(n, (7, f, b'0123456789')), (n, (2 ** 200 + 12345678901234567890, f + 4, b'abc'))] for n in sorted(TABLE) for f in ((0, 1, 6, 7) if not n.startswith('refusal') else (0, 7))])
def processes(c, batch):
    """the calls answered here and in processes with other settings of the interpreter"""
    here = answers(batch)
    for (flags, env), there in zip(CONFIGS, ask('answers', batch)):
        for call, a, b in zip(batch, here, there):
            if call[0].startswith('refusal'):
                c.true(a == 'refused', '%s%r is not refused: %r' % (call[0], call[1], a))
            c.eq(b, a, '%s%r in a process with %s %s' % (call[0], call[1], ' '.join(flags), env))
    for name in {n for n, _ in batch}:
        c.label('refusal' if name.startswith('refusal') else name)
    refused = sum(1 for a in here if a == 'refused')
    if refused:
        c.label('some refused')
    c.nontrivial(len(batch) > refused and len({n for n, _ in batch}) > 1)
