"""C27 results do not depend on earlier calls, and arguments are not modified."""
import decimal
import hashlib
import io
import random

import bitcoin
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet
from pbt.facets.address import address_hash, quiet, version
from pbt.facets.keys import Standin

from neocore.BigInteger import BigInteger
from neocore.bin import cli
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.Fixed8 import Fixed8
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.KeyPair import KeyPair
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from neocore.Utils import isValidPublicAddress

N = ref.P256.n
D8 = 100000000


def b32(v):
    return v.to_bytes(32, 'big')


def xy(p):
    return None if p.IsInfinity else (p.x.value, p.y.value)


class State:
    """what a history remembers: earlier signatures, returned objects with their value, and one shared stream"""

    def __init__(self, ctx):
        self.c = ctx
        self.sigs = {}
        self.kept = []
        self.default = None
        self.verifies = 0
        self.out = io.BytesIO()
        self.writer = BinaryWriter(self.out)
        self.written = []

    def keep(self, name, obj, view):
        """obj has to look the same for the rest of the history"""
        self.kept.append((name, obj, view, view(obj)))
        return obj

    def pick(self, i):
        return self.kept[i % len(self.kept)] if self.kept else None

    def check_kept(self):
        for name, obj, view, before in self.kept:
            self.c.eq(view(obj), before, '%s returned earlier' % name)


# every operation: (state, arguments) -> None; compares the result with the reference

def op_pair(s, k, form, _):
    key = b32(k)
    unc = ref.sec1(ref.pub(k), False)[1:]
    arg = bytearray([key, unc + key, b'\1' * 8 + unc + key][form % 3])
    snap = bytes(arg)
    kp = KeyPair(arg)
    s.c.eq(bytes(arg), snap, 'argument of KeyPair')
    s.keep('key pair %x' % k, kp, lambda o: (bytes(o.PrivateKey), xy(o.PublicKey), bytes(o.PublicKeyHash.ToArray()), o.GetAddress(), o.Export()))
    s.c.eq((bytes(kp.PrivateKey), xy(kp.PublicKey), kp.GetAddress(), kp.Export()), (key, ref.pub(k), ref.address_of_key(k), ref.wif(key)), 'key pair %x' % k)


def op_wif(s, k, form, _):
    s.c.eq(bytes(KeyPair.PrivateKeyFromWIF(ref.wif(b32(k)))), b32(k), 'import of the WIF of %x' % k)


def op_wif_bad(s, k, form, blob):
    t = ref.wif(b32(k))
    i = form % 52
    t = t[:i] + ('2' if t[i] != '2' else '3') + t[i + 1:]
    s.c.raises(lambda: KeyPair.PrivateKeyFromWIF(t), 'import of %s' % t)


def op_pair_bad(s, k, form, blob):
    bad = [bytes(32), b32(N), b'\xff' * 32, b32(k)[1:], b32(k) + b'\1', b''][form % 6]
    s.c.raises(lambda: KeyPair(bad), 'private key %s' % bad.hex())


def op_nep2(s, k, form, blob):
    if not Standin.works():
        return
    with Standin() as stub:
        t = KeyPair(b32(k)).ExportNEP2('passphrase')
        if stub.calls:
            s.c.eq(t, ref.nep2_encrypt(b32(k), 'passphrase', stub.kdf), 'NEP-2 text of %x' % k)
            if form % 2:
                s.c.eq(bytes(KeyPair.PrivateKeyFromNEP2(t, 'passphrase')), b32(k), 'NEP-2 text %s' % t)
            else:
                s.c.raises(lambda: KeyPair.PrivateKeyFromNEP2(t, 'wrong one'), 'NEP-2 text %s with a wrong passphrase' % t)


def lengthened(blob, form):
    """now and then a message of some hundred bytes"""
    return blob * [1, 1, 1, 9, 1, 40, 1][form % 7]


def op_sign(s, k, form, blob):
    blob = lengthened(blob, form)
    priv = [b32(k).hex(), b32(k), bytearray(b32(k))][form % 3]
    msg = blob.hex() if form % 2 else bytearray(blob.hex().encode())
    sig = (Crypto if form % 5 else Crypto.Default()).Sign(msg, priv)
    s.c.true(bytes(priv) == b32(k) if form % 3 else True, 'the key passed to Sign was modified')
    s.c.true(form % 2 or bytes(msg) == blob.hex().encode(), 'the message passed to Sign was modified')
    s.keep('signature', sig, bytes)
    r, q = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    s.c.eq(s.sigs.setdefault((k, blob), bytes(sig)), bytes(sig), 'signature of %s by %x, made again' % (blob.hex(), k))
    s.c.true(ref.ecdsa_verify(ref.pub(k), ref.sha256(blob), r, q), 'signature of %s by %x' % (blob.hex(), k))


def op_verify(s, k, form, blob):
    s.verifies += 1
    if s.verifies > 4:
        return
    blob = lengthened(blob, form)
    Q = ref.pub(k)
    nonce = k % 997 + 2
    r, q = ref.ecdsa_sign(k, ref.sha256(blob), nonce)
    if r == 0 or q == 0:
        return
    sig = bytearray(b32(r) + b32(q))
    good = form % 3 > 0
    if not good:
        sig[form % 64] ^= 1
    snap = bytes(sig)
    key = [lambda: bytearray(ref.sec1(Q)), lambda: ref.sec1(Q), lambda: ECDSA.decode_secp256r1(ref.sec1(Q).hex()).G, lambda: KeyPair(b32(k)).PublicKey][form // 3 % 4]()
    exp = ref.ecdsa_verify(Q, ref.sha256(blob), int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'))
    arg = bytearray(blob)
    got = (Crypto if form % 2 else Crypto.Default()).VerifySignature(*[(blob.hex(), sig, key), (arg, sig, key, False)][form // 2 % 2])
    s.c.eq(bytes(arg), blob, 'the message passed to VerifySignature')
    s.c.eq(got, exp, 'verdict on the signature of %s by %x (%s)' % (blob.hex(), k, 'valid' if good else 'changed'))
    s.c.eq(bytes(sig), snap, 'the signature passed to VerifySignature')
    s.c.true(xy(key) == Q if isinstance(key, EllipticCurve.ECPoint) else bytes(key) == ref.sec1(Q), 'the key passed to VerifySignature was modified')


def op_verify_bad(s, k, form, blob):
    bad = [b'\2' + b'\xff' * 32, b'\5' + b32(k), b'', ref.sec1(ref.pub(k))[:-1], bytearray(33)][form % 5]
    s.c.eq(Crypto.VerifySignature(blob.hex(), bytes(64), bad), False, 'verdict with malformed key %s' % bytes(bad).hex())


def op_decode(s, k, form, blob):
    Q = ref.pub(k)
    comp, unc = ref.sec1(Q), ref.sec1(Q, False)
    arg = bytearray([comp, unc, unc[1:], comp][form % 4])
    snap = bytes(arg)
    if form % 4 == 2:
        p = ECDSA.FromBytes_Secp256r1(arg).G
    elif form % 4 == 3:
        st_ = io.BytesIO(snap + blob)
        p = ECDSA.Deserialize_Secp256r1(BinaryReader(st_))
        s.c.eq(st_.tell(), 33, 'position after a point')
    else:
        p = ECDSA.decode_secp256r1(arg, unhex=False).G
    s.c.eq(bytes(arg), snap, 'argument of the decoder')
    s.keep('point', p, lambda o: (xy(o), bytes(o.encode_point(True)), bytes(o.encode_point(False))))
    s.c.eq((xy(p), bytes(p.encode_point(True)), bytes(p.encode_point(False))), (Q, comp.hex().encode(), unc.hex().encode()), 'point decoded from %s' % snap.hex())


def op_decode_bad(s, k, form, blob):
    bad = [ref.sec1(ref.pub(k))[:-1], b'\x07' + b32(k), b'\x04' + b32(k) * 2, b'\2' + b'\xff' * 32, b'\x02' + bytes(31)][form % 5]
    if ref.sec1_decode(bad) is None:
        s.c.raises(lambda: ECDSA.decode_secp256r1(bad.hex()), 'decoding %s' % bad.hex())


def op_points(s, k, form, blob):
    ec = ECDSA.secp256k1() if form % 3 == 0 else ECDSA.secp256r1()
    rc = ref.K256 if form % 3 == 0 else ref.P256
    m = form % 50 - 5
    A = rc.mul(k % rc.n or 1, rc.G)
    p = s.keep('curve point', ec.Curve.point(*A), xy)
    g = s.keep('base point', ec.G, xy)
    s.c.eq(xy(g), rc.G, 'base point')
    s.c.eq(xy(p + g), rc.add(A, rc.G), 'P + G')
    s.c.eq(xy(p - g), rc.add(A, rc.neg(rc.G)), 'P - G')
    s.c.eq(xy(g * m), rc.mul(m, rc.G), 'G * %d' % m)
    s.c.eq(xy(-p), rc.neg(A), '-P')
    acc = p
    acc += g
    acc -= p
    s.c.eq(xy(acc), rc.G, 'P += G, -= P')
    s.c.eq((xy(p), p < g, p == g), (A, A < rc.G, A == rc.G), 'order')


def op_field(s, k, form, blob):
    q = [ref.P256.p, N, 8191, ref.K256.p][form % 4]
    F = FiniteField(q)
    a, b = k % q, (k >> 7) % q
    x = s.keep('field value', F.value(a), lambda o: o.value)
    y = s.keep('field value', F.value(b), lambda o: o.value)
    z = x
    z += y
    z *= x
    s.c.eq((z.value, (x - y).value, (-x).value % q), ((a + b) * a % q, (a - b) % q, -a % q), 'field operations')
    if b:
        s.c.eq((x / y).value, a * pow(b, -1, q) % q, 'field division')


def op_hash(s, k, form, blob):
    arg = bytearray(blob)
    s.c.eq((Crypto.Hash160(arg), bytes(Crypto.Hash256(arg)), bytes(Crypto.Default().Hash160(arg)), Helper.double_sha256(arg), Helper.bin_hash160(arg)),
           (ref.hash160(blob).hex(), ref.hash256(blob), ref.hash160(blob), ref.hash256(blob).hex(), ref.hash160(blob).hex()), 'hashes of %s' % blob.hex())
    s.c.eq(bytes(arg), blob, 'argument of the hash functions')
    h = s.keep('script hash', Crypto.ToScriptHash(arg, unhex=False), lambda o: (bytes(o.ToArray()), str(o), hash(o)))
    s.c.eq(bytes(h.ToArray()), ref.hash160(blob), 'script hash')
    s.c.eq(bytes(Helper.xor_bytes(blob, blob[::-1])), bytes(a ^ b for a, b in zip(blob, blob[::-1])), 'xor')
    s.c.eq(bytes(Helper.base256_encode(k, form % 40)), k.to_bytes(max((k.bit_length() + 7) // 8, form % 40, 1), 'little'), 'base256_encode')


def op_address(s, k, form, blob):
    h = ref.hash160(blob)
    v = 23 if form % 3 else form % 256
    u = UInt160(data=bytearray(h))
    with version(v):
        s.c.eq((Crypto.ToAddress(u), Helper.scripthash_to_address(bytearray(h)), quiet(cli.scripthash_to_address, '0x' + h[::-1].hex()), quiet(cli.scripthash_to_address, h.hex())),
               (ref.address_of_hash(h, v),) * 4, 'address of %s, version %d' % (h.hex(), v))
        s.c.eq(bytes(cli.address_to_scripthash(ref.address_of_hash(h, v))), h, 'script hash')
    s.c.eq(bytes(u.ToArray()), h, 'argument of ToAddress')
    s.c.eq(Crypto.ToAddress(u), ref.address_of_hash(h), 'address of %s' % h.hex())
    s.c.true(isValidPublicAddress(ref.address_of_hash(h)), 'address is valid')


def op_address_bad(s, k, form, blob):
    t = list(ref.address_of_hash(ref.hash160(blob)))
    i = 1 + form % 33
    t[i] = '2' if t[i] != '2' else '3'
    t = ''.join(t)
    if address_hash(t) is None:
        s.c.raises(lambda: cli.address_to_scripthash(t), 'script hash of %s' % t)
        s.c.eq(isValidPublicAddress(t), False, 'validity of %s' % t)


def hash_list(k, form, blob):
    return [ref.sha256(blob + bytes([i])) for i in range(1 + form % 11)]


def tree_view(node):
    return None if node is None else (bytes(node.Hash.ToArray()), tree_view(node.LeftChild), tree_view(node.RightChild))


def op_merkle(s, k, form, blob):
    hs = hash_list(k, form, blob)
    objs = [UInt256(data=bytearray(h)) for h in hs]
    arg = list(objs)
    root = s.keep('merkle root', MerkleTree.ComputeRoot(arg), lambda o: bytes(o.ToArray()))
    s.c.eq(bytes(root.ToArray()), ref.merkle_root(hs), 'root of %d hashes' % len(hs))
    tree = s.keep('merkle tree', MerkleTree(arg), lambda o: tree_view(o.Root))
    s.c.eq(bytes(tree.Root.Hash.ToArray()), ref.merkle_root(hs), 'root of the tree')
    s.c.eq({bytes(x.ToArray()) for x in tree.ToHashArray()}, set(hs), 'hashes of the tree')
    s.c.true(len(arg) == len(objs) and all(a is b for a, b in zip(arg, objs)) and [bytes(o.ToArray()) for o in objs] == hs, 'the list of hashes was modified')
    if len(hs) > 1:
        flags = bytearray((form >> i) & 1 for i in range(len(hs)))
        snap = bytes(flags)
        other = MerkleTree(arg)
        other.Trim(flags)
        s.c.eq(tree_view(other.Root), ref.merkle_trim(hs, snap), 'trimmed tree')
        s.c.eq(bytes(flags), snap, 'flags')
    s.c.raises(lambda: MerkleTree.ComputeRoot([]), 'root of nothing')


def op_uint(s, k, form, blob):
    h = ref.hash256(blob) if form % 2 else ref.hash160(blob)
    cls = UInt256 if form % 2 else UInt160
    text = h[::-1].hex()
    u = s.keep('%s' % cls.__name__, cls.ParseString(('0x' if form % 3 else '') + text), lambda o: (bytes(o.ToArray()), str(o), o.To0xString(), hash(o)))
    s.c.eq((bytes(u.ToArray()), u.ToString(), u.To0xString(), bytes(u.ToBytes()).decode() if isinstance(u.ToBytes(), (bytes, bytearray)) else u.ToBytes()), (h, text, '0x' + text, text), 'parsed %s' % text)
    v = cls(data=bytearray(h))
    s.c.true(u == v and hash(u) == hash(v) and not u < v and u <= v, 'equal values')
    w = cls()
    handed = w.ToArray()
    w.Deserialize(BinaryReader(io.BytesIO(h + blob)))
    s.c.eq(w, u, 'deserialized %s' % text)
    s.c.eq(bytes(handed), bytes(len(h)), 'the bytes handed out before the value was read from a stream')
    handed = s.keep('bytes of a value', w.ToArray(), bytes)
    w.Deserialize(BinaryReader(io.BytesIO(bytes(reversed(h)))))
    s.c.eq(bytes(handed), h, 'the bytes handed out before the value was read again')
    out = io.BytesIO()
    u.Serialize(BinaryWriter(out))
    if not all(chr(b) in '0123456789abcdefABCDEF' for b in h):
        s.c.eq(out.getvalue(), h, 'serialized %s' % text)
    zero = cls()
    s.c.eq(bytes(zero.ToArray()), bytes(len(h)), 'value without data')
    s.c.raises(lambda: cls.ParseString(text[1:]), 'parsing %s' % text[1:])
    s.c.raises(lambda: cls(data=h + b'\0'), 'data of wrong length')


def op_deserialize_short(s, k, form, blob):
    cls = UInt256 if form % 2 else UInt160
    w = cls()
    cut = blob[:19]
    s.c.raises(lambda: w.Deserialize(BinaryReader(io.BytesIO(cut))), 'deserializing %d bytes' % len(cut))
    s.c.raises(lambda: BinaryReader(io.BytesIO(cut[:7])).ReadUInt64(), 'reading 8 of 7 bytes')
    s.c.raises(lambda: BinaryReader(io.BytesIO(b'\x05' + cut[:4])).ReadVarString(), 'reading a cut string')


def op_big(s, k, form, blob):
    a = int.from_bytes(blob, 'little', signed=bool(form % 2))
    x = s.keep('BigInteger', BigInteger(a), int)
    y = s.keep('BigInteger', BigInteger(k % 2 ** 70 - 2 ** 69), int)
    z = x
    z += y
    z *= x
    z -= 1
    s.c.eq(int(z), (a + (k % 2 ** 70 - 2 ** 69)) * a - 1, 'chain of operations')
    s.c.true(isinstance(z, BigInteger), 'type of the result')
    s.c.eq(int(BigInteger.FromBytes(bytearray(blob), signed=bool(form % 2))), a, 'FromBytes')
    s.c.eq(int.from_bytes(bytes(x.ToByteArray()), 'little', signed=True), a, 'ToByteArray')


def op_fixed(s, k, form, blob):
    a, b = k % 2 ** 50 - 2 ** 49, (k >> 60) % 2 ** 50
    x = s.keep('Fixed8', Fixed8(a), lambda o: (o.value, o.ToString()))
    y = s.keep('Fixed8', Fixed8(b), lambda o: (o.value, o.ToString()))
    z = x
    z += y
    w = z
    z -= x
    z -= y
    s.c.eq((z.value, w.value, (x + y).value, (x - y).value, (-x).value, x < y), (0, a + b, a + b, a - b, -a, a < b), 'amounts')
    for inplace, exp in (('__imul__', a * b), ('__ifloordiv__', a // b if b else None)):
        z = x
        if exp is None:
            continue
        if inplace == '__imul__':
            z *= y
        else:
            z //= y
        s.c.eq((z.value, x.value), (exp, a), 'in-place operator %s' % inplace)
    with decimal.localcontext():
        t = '%s%d.%08d' % ('-' if a < 0 else '', abs(a) // D8, abs(a) % D8)
        s.c.eq(Fixed8.TryParse(t).value, a, 'parsed %s' % t)
        s.c.eq(Fixed8.FromDecimal(decimal.Decimal(t)).value, a, 'FromDecimal(%s)' % t)
    s.c.eq(Fixed8.TryParse('1.x'), None, 'malformed amount')
    f = s.keep('Fixed8', Fixed8.One(), lambda o: o.value)
    f2 = f
    f2 += f
    s.c.eq((Fixed8.One().value, Fixed8.Zero().value, Fixed8.Satoshi().value, Fixed8.NegativeSatoshi().value), (D8, 0, 1, -1), 'constants')


def op_stream(s, k, form, blob):
    """write to the stream shared by the whole history"""
    w = s.writer
    arg = bytearray(blob)
    kind = form % 8
    start = s.out.tell()
    if kind == 0:
        w.WriteVarInt(k % 2 ** (form % 64 + 1))
        exp = ref.varint(k % 2 ** (form % 64 + 1))
    elif kind == 1:
        w.WriteVarBytes(arg)
        exp = ref.varint(len(blob)) + blob
    elif kind == 2:
        w.WriteUInt32(k % 2 ** 32)
        exp = (k % 2 ** 32).to_bytes(4, 'little')
    elif kind == 3:
        w.WriteVarString(blob.hex())
        exp = ref.varint(2 * len(blob)) + blob.hex().encode()
    elif kind == 4:
        h = ref.sha256(blob)
        w.WriteHashes([h.hex().encode()] * 2)
        exp = b'\2' + h[::-1] + h[::-1]
    elif kind == 5:
        s.c.raises(lambda: w.WriteVarInt(-1), 'negative variable-length integer')
        exp = b''
    elif kind == 6:
        w.WriteFixed8(Fixed8(k % 2 ** 63))
        exp = (k % 2 ** 63).to_bytes(8, 'little')
    else:
        s.c.raises(lambda: w.WriteUInt16(70000), 'number out of range')
        exp = b''
    s.c.eq(bytes(arg), blob, 'argument of a write')
    s.c.eq(s.out.getvalue()[start:], exp, 'bytes written')
    s.written.append(exp)
    s.c.eq(s.out.getvalue(), b''.join(s.written), 'the whole stream')
    back = BinaryReader(io.BytesIO(exp))
    if kind == 0:
        s.c.eq(back.ReadVarInt(), k % 2 ** (form % 64 + 1), 'ReadVarInt')
    elif kind == 1:
        s.c.eq(bytes(back.ReadVarBytes()), blob, 'ReadVarBytes')
    elif kind == 2:
        s.c.eq(back.ReadUInt32(), k % 2 ** 32, 'ReadUInt32')
    elif kind == 6:
        s.c.eq(back.ReadFixed8().value, k % 2 ** 63, 'ReadFixed8')


# disturbances

def dis_curve(s, k, form, blob):
    """another user of the bitcoin package selects secp256k1, or leaves something else behind"""
    if form % 3 == 0:
        bitcoin.change_curve(ref.K256.p, ref.K256.n, 0, 7, *ref.K256.G)
    elif form % 3 == 1:
        bitcoin.change_curve(23, 29, 1, 1, 3, 10)
    else:
        bitcoin.change_curve(ref.P256.p, ref.P256.n, ref.P256.a, ref.P256.b, *ref.P256.mul(7, ref.P256.G))


def dis_default(s, k, form, blob):
    """the shared instance stays the same object"""
    d = Crypto.Default()
    s.c.true(s.default is None or d is s.default, 'Crypto.Default() returns another instance')
    s.default = d
    CryptoInstance()


def dis_random(s, k, form, blob):
    random.seed(form)


def scramble(o):
    """what a caller may do to an object it got back"""
    if isinstance(o, bytearray):
        for i in range(len(o)):
            o[i] ^= 0x5a
        o += b'more'
    elif isinstance(o, (UInt160, UInt256)):
        o.Deserialize(BinaryReader(io.BytesIO(bytes(range(7, 7 + o.Size)))))
    elif isinstance(o, list):
        for x in o:
            scramble(x)
        o.reverse()
        o.append(None)
    elif isinstance(o, dict):
        o.clear()
    elif isinstance(o, set):
        o.clear()
    elif isinstance(o, Fixed8):
        o.value += 12345
    elif isinstance(o, (tuple,)):
        for x in o:
            scramble(x)
    elif isinstance(o, MerkleTree):
        o.Trim(b'')
    elif isinstance(o, KeyPair):
        scramble(o.PrivateKey)
        scramble(o.PublicKeyHash)


def plain(o):
    """an immutable picture of a result"""
    if isinstance(o, (bytes, bytearray)):
        return bytes(o)
    if isinstance(o, (UInt160, UInt256)):
        return type(o).__name__, bytes(o.ToArray()), hash(o)
    if isinstance(o, (list, tuple)):
        return tuple(plain(x) for x in o)
    if isinstance(o, (set, dict)):
        return frozenset(o.items() if isinstance(o, dict) else o)
    if isinstance(o, Fixed8):
        return 'Fixed8', o.value
    if isinstance(o, MerkleTree):
        return tree_view(o.Root)
    if isinstance(o, KeyPair):
        return bytes(o.PrivateKey), xy(o.PublicKey), plain(o.PublicKeyHash), o.GetAddress(), o.Export()
    if isinstance(o, EllipticCurve.ECPoint):
        return xy(o)
    if isinstance(o, FiniteField.Value):
        return o.value
    return o


def rd(data):
    return BinaryReader(io.BytesIO(data))


def hashes_of(form, blob, cls=UInt256):
    return [cls(data=h) for h in hash_list(0, form, blob)]


# calls with arguments made anew for every call: (key, number, bytes) -> result
CALLS = {
    'ToScriptHash': lambda k, f, b: Crypto.ToScriptHash(b, unhex=False),
    'ToScriptHash hex': lambda k, f, b: Crypto.ToScriptHash((b + b'q').hex().encode()),
    'Sign': lambda k, f, b: Crypto.Sign(b.hex(), b32(k).hex()),
    'Hash256': lambda k, f, b: (Crypto.Hash256(b), Crypto.Hash160(b), Crypto.Hash160Bytes(b), Crypto.Default().Hash160(b), Crypto.Default().Hash256(b)),
    'helpers': lambda k, f, b: (Helper.base256_encode(k, f % 40), Helper.xor_bytes(b, b[::-1]), Helper.bin_hash160Bytes(b), Helper.bin_dbl_sha256(b), Helper.redeem_to_scripthash(b)),
    'pubkey helpers': lambda k, f, b: (Helper.pubkey_to_redeem(ref.sec1(ref.pub(k)).hex().encode()), Helper.pubkey_to_pubhash(ref.sec1(ref.pub(k)).hex().encode())),
    'KeyPair': lambda k, f, b: KeyPair(b32(k)),
    'KeyPair hash': lambda k, f, b: KeyPair(b32(k)).PublicKeyHash,
    'PrivateKey': lambda k, f, b: KeyPair(b32(k)).PrivateKey,
    'WIF': lambda k, f, b: KeyPair.PrivateKeyFromWIF(ref.wif(b32(k))),
    'encode_point': lambda k, f, b: KeyPair(b32(k)).PublicKey.encode_point(bool(f % 2)),
    'decode': lambda k, f, b: ECDSA.decode_secp256r1(ref.sec1(ref.pub(k)).hex()).G,
    'infinity': lambda k, f, b: ECDSA.secp256r1().Curve.Infinity.encode_point(),
    'MerkleTree': lambda k, f, b: MerkleTree(hashes_of(f, b)),
    'ToHashArray': lambda k, f, b: sorted(MerkleTree(hashes_of(f, b)).ToHashArray()),
    'ComputeRoot': lambda k, f, b: MerkleTree.ComputeRoot(hashes_of(f, b)),
    'ParseString 160': lambda k, f, b: UInt160.ParseString(ref.hash160(b).hex()),
    'ParseString 256': lambda k, f, b: UInt256.ParseString('0x' + ref.sha256(b).hex()),
    'zero values': lambda k, f, b: (UInt160(), UInt256(), UInt160().ToArray(), UInt256().ToArray()),
    'uint data': lambda k, f, b: UInt256(data=ref.sha256(b)),
    'uint array': lambda k, f, b: UInt160(data=ref.hash160(b)).ToArray(),
    'ReadUInt': lambda k, f, b: (rd(ref.sha256(b)).ReadUInt256(), rd(ref.sha256(b)).ReadUInt160()),
    'ReadHashes': lambda k, f, b: rd(b'\2' + ref.sha256(b) * 2).ReadHashes(),
    'ReadVarBytes': lambda k, f, b: (rd(ref.varint(len(b)) + b).ReadVarBytes(), rd(ref.varint(len(b)) + b).ReadVarString(), rd(b).ReadBytes(3), rd(b).ReadFixedString(5)),
    'ReadFixed8': lambda k, f, b: rd(b32(k)).ReadFixed8(),
    'BigInteger': lambda k, f, b: (BigInteger(k).ToByteArray(), BigInteger.FromBytes(b), BigInteger(-k).ToByteArray()),
    'Fixed8': lambda k, f, b: (Fixed8.One(), Fixed8.Zero(), Fixed8.Satoshi(), Fixed8.NegativeSatoshi(), Fixed8.FD()),
    'Fixed8 ops': lambda k, f, b: (Fixed8(k) + Fixed8(0), Fixed8(k) - Fixed8(0), Fixed8(k).Ceil(), Fixed8(k).Floor(), -Fixed8(f), Fixed8.TryParse(str(f)), Fixed8.FromDecimal(f)),
    'cli': lambda k, f, b: (cli.address_to_scripthash(ref.address_of_hash(ref.hash160(b))), quiet(cli.scripthash_to_address, ref.hash160(b).hex())),
}
PATTERN = {UInt160: bytes(range(7, 27)), UInt256: bytes(range(7, 39))}


def dis_mutate(s, k, form, blob):
    """the caller changes objects it got back; no later result may show it"""
    for name in ('KeyPair', 'Sign', 'zero values', 'ToScriptHash', 'Fixed8', 'helpers', 'MerkleTree', 'ComputeRoot', 'uint data'):
        scramble(CALLS[name](k, form, blob))


OPS = [op_pair, op_wif, op_wif_bad, op_pair_bad, op_nep2, op_sign, op_sign, op_verify, op_verify_bad, op_decode, op_decode_bad, op_points, op_field, op_hash, op_address, op_address_bad,
       op_merkle, op_uint, op_deserialize_short, op_big, op_fixed, op_stream, op_stream]
DIS = [dis_curve, dis_curve, dis_default, dis_random]
TABLE = {f.__name__: f for f in OPS + DIS + [dis_mutate]}


def step(names):
    small = gen.integers(1, 5)
    return st.tuples(st.sampled_from(names), st.one_of(small, gen.keys(), small), gen.integers(0, 1000), st.one_of(st.sampled_from([b'', b'\0' * 8, b'message', b'0123456789abcdef0123']), gen.blobs(0, 30)))


@st.composite
def histories(draw):
    names = [f.__name__ for f in OPS] + [f.__name__ for f in DIS] * 3
    return draw(st.lists(step(names), min_size=2, max_size=12))


@facet('C27', histories, 3200, 'at least two operations after a disturbance or a failing call', shards=8, thorough=15,
       corpus=lambda: [[('dis_curve', 1, v, b''), (f.__name__, 7, w, b'message'), (g.__name__, 8, w + 1, b'message')] for v in range(3) for w in (1, 3) for f in dict.fromkeys(OPS) for g in (op_sign, op_verify)][:250])
def history(c, case):
    """every result of a history of calls is the one of the reference, whatever came before"""
    s = State(c)
    disturbed = after = 0
    try:
        for name, k, form, blob in case:
            TABLE[name](s, k, form, blob)
            if name.startswith('dis_') or name.endswith('bad') or name.endswith('short'):
                disturbed += 1
            elif disturbed:
                after += 1
            c.label(name)
        s.check_kept()
    finally:
        dis_curve(s, 1, 0, b'')
    c.nontrivial(after >= 2)


@facet('C27', lambda: st.tuples(step(['dis_mutate']), st.lists(step([f.__name__ for f in OPS]), min_size=1, max_size=5)), 1200, 'every case', shards=8, thorough=15)
def results_are_fresh(c, case):
    """changing an object that was returned does not change later results"""
    d, steps = case
    s = State(c)
    for name, k, form, blob in [d] + steps:
        TABLE[name](s, k, form, blob)
    s.check_kept()
    c.nontrivial()


@facet('C27', lambda: st.tuples(st.lists(step([f.__name__ for f in OPS if f is not op_verify]), min_size=2, max_size=6), st.randoms(use_true_random=False)).map(lambda t: (t[0], t[1].sample(range(len(t[0])), len(t[0])))), 1200, 'at least two different operations', shards=8, thorough=15)
def order_is_irrelevant(c, case):
    """the same calls in another order, and each twice"""
    steps, perm = case
    s = State(c)
    for i in list(range(len(steps))) + perm:
        name, k, form, blob = steps[i]
        TABLE[name](s, k, form, blob)
    s.check_kept()
    c.nontrivial(len({x[0] for x in steps}) > 1)


@facet('C27', lambda: st.tuples(st.lists(st.sampled_from(sorted(CALLS)), min_size=1, max_size=4), st.one_of(gen.integers(1, 5), gen.keys()), gen.integers(0, 1000), gen.blobs(0, 30)), 1800, 'result with mutable parts', shards=4, thorough=15,
       corpus=lambda: [([n], 7, 5, b'0123456789') for n in sorted(CALLS)])
def repeated_calls(c, case):
    """the same call gives the same result again, whatever was done to the object returned by the first call"""
    names, k, form, blob = case
    first = {}
    kept = []
    for name in names * 2:
        got = CALLS[name](k, form, blob)
        view = plain(got)
        if name in first:
            c.eq(view, first[name], '%s of %d, %d, %s called again' % (name, k, form, blob.hex()))
        first.setdefault(name, view)
        other = CALLS[name](k, form, blob)
        scramble(got)
        c.eq(plain(other), view, '%s of %d, %d, %s: a result changed together with another one' % (name, k, form, blob.hex()))
        kept.append((name, other, view))
        c.nontrivial(plain(got) != view)
    for name, o, view in kept:
        c.eq(plain(o), view, '%s: a result changed later' % name)
    for name in set(names):
        c.label(name)
