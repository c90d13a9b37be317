"""C27 arguments reused by the caller; C05 related lists; C16 long forms; C19 texts near a message."""
import io

from hypothesis import strategies as st

from pbt import findings, gen, ref
from pbt.core import Lazy, facet
from pbt.facets.crypto import b32, messages, point, sign
from pbt.facets.curve import ref_point, xy
from pbt.facets.history import hash_list, plain
from pbt.facets.io_var import grow

from neocore.BigInteger import BigInteger
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.Cryptography.ECCurve import ECDSA
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.KeyPair import KeyPair
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

R1 = Lazy(ECDSA.secp256r1)


def mutable(b):
    return bytearray(b)


def wrote(method, *more):
    def call(buf):
        s = io.BytesIO()
        getattr(BinaryWriter(s), method)(buf, *more)
        return s
    return call


def uints(n, form, blob):
    return [UInt256(data=h) for h in hash_list(0, n, blob)]


def pair_of(buf):
    try:
        return KeyPair(buf)
    except Exception as e:
        return type(e)


# operation: (argument of key, number, bytes), call -> result.  The caller writes over the argument afterwards.
TAKING = {
    'UInt160': (lambda k, f, b: mutable(ref.hash160(b)), lambda a: UInt160(data=a)),
    'UInt256': (lambda k, f, b: mutable(ref.sha256(b)), lambda a: UInt256(data=a)),
    'KeyPair': (lambda k, f, b: mutable(b32(k)), pair_of),
    'KeyPair 96': (lambda k, f, b: mutable(ref.sec1(ref.pub(k), False)[1:] + b32(k)), pair_of),
    'KeyPair 104': (lambda k, f, b: mutable(b'\7' * 8 + ref.sec1(ref.pub(k), False)[1:] + b32(k)), pair_of),
    'Sign': (lambda k, f, b: mutable(b.hex().encode()), lambda a: Crypto.Sign(a, '11' * 32)),
    'Sign key': (lambda k, f, b: mutable(b32(k)), lambda a: Crypto.Sign('abcd', a)),
    'Hash256': (lambda k, f, b: mutable(b), Crypto.Hash256),
    'Hash160': (lambda k, f, b: mutable(b), Crypto.Hash160),
    'Hash160Bytes': (lambda k, f, b: mutable(b), Crypto.Hash160Bytes),
    'instance Hash256': (lambda k, f, b: mutable(b), lambda a: CryptoInstance().Hash256(a)),
    'ToScriptHash': (lambda k, f, b: mutable(b.hex().encode()), Crypto.ToScriptHash),
    'ToScriptHash raw': (lambda k, f, b: mutable(b), lambda a: Crypto.ToScriptHash(a, unhex=False)),
    'scripthash_to_address': (lambda k, f, b: mutable(ref.hash160(b)), Helper.scripthash_to_address),
    'xor_bytes': (lambda k, f, b: mutable(b), lambda a: Helper.xor_bytes(a, a)),
    'bin_dbl_sha256': (lambda k, f, b: mutable(b), Helper.bin_dbl_sha256),
    'bin_hash160Bytes': (lambda k, f, b: mutable(b), Helper.bin_hash160Bytes),
    'redeem_to_scripthash': (lambda k, f, b: mutable(b), Helper.redeem_to_scripthash),
    'pubkey_to_redeem': (lambda k, f, b: mutable(ref.sec1(ref.pub(k)).hex().encode()), Helper.pubkey_to_redeem),
    'pubkey_to_pubhash': (lambda k, f, b: mutable(ref.sec1(ref.pub(k)).hex().encode()), Helper.pubkey_to_pubhash),
    'decode': (lambda k, f, b: mutable(ref.sec1(ref.pub(k), bool(f % 2))), lambda a: ECDSA.decode_secp256r1(a, unhex=False).G),
    'FromBytes': (lambda k, f, b: mutable(ref.sec1(ref.pub(k), False)[1:]), lambda a: ECDSA.FromBytes_Secp256r1(a).G),
    'FromBytes 33': (lambda k, f, b: mutable(ref.sec1(ref.pub(k))), lambda a: ECDSA.FromBytes_Secp256r1(a).G),
    'decode_from_hex': (lambda k, f, b: mutable(ref.sec1(ref.pub(k))), lambda a: R1.Curve.decode_from_hex(a, unhex=False)),
    'field value': (lambda k, f, b: mutable(b32(k)), lambda a: R1.GFp.value(bytes(a).hex())),
    'BigInteger': (lambda k, f, b: mutable(b), lambda a: BigInteger.FromBytes(a, signed=bool(len(a) % 2))),
    'MerkleTree': (lambda k, f, b: uints(f, f, b), MerkleTree),
    'ComputeRoot': (lambda k, f, b: uints(f, f, b), MerkleTree.ComputeRoot),
    'ToHashArray': (lambda k, f, b: uints(f, f, b), lambda a: sorted(MerkleTree(a).ToHashArray())),
    'WriteVarBytes': (lambda k, f, b: mutable(b), wrote('WriteVarBytes')),
    'WriteBytes': (lambda k, f, b: mutable(b), wrote('WriteBytes', False)),
    'WriteBytes hex': (lambda k, f, b: mutable(b.hex().encode()), wrote('WriteBytes')),
    'WriteVarString': (lambda k, f, b: mutable(b), wrote('WriteVarString')),
    'WriteHashes': (lambda k, f, b: [h.hex() for h in hash_list(0, f, b)], wrote('WriteHashes')),
    'WriteUInt160': (lambda k, f, b: mutable(ref.hash160(b)), lambda a: wrote('WriteUInt160')(UInt160(data=a))),
    'reader': (lambda k, f, b: mutable(ref.varint(len(b)) + b), lambda a: BinaryReader(io.BytesIO(a)).ReadVarBytes()),
    'read value': (lambda k, f, b: mutable(ref.sha256(b)), lambda a: BinaryReader(io.BytesIO(a)).ReadUInt256()),
    'read point': (lambda k, f, b: mutable(ref.sec1(ref.pub(k))), lambda a: ECDSA.Deserialize_Secp256r1(BinaryReader(io.BytesIO(a)))),
}


def picture(o):
    if isinstance(o, io.BytesIO):
        return o.getvalue()
    if isinstance(o, KeyPair):
        return plain(o), plain(KeyPair(bytes(o.PrivateKey)).PublicKeyHash)
    return plain(o)


def overwrite(arg, how):
    """what the caller does with a buffer or list afterwards"""
    if isinstance(arg, bytearray):
        if how == 0:
            arg[:] = bytes(len(arg))
        elif how == 1:
            for i in range(len(arg)):
                arg[i] ^= 0xa5
        elif how == 2:
            arg.clear()
        else:
            arg += b'more'
            arg.reverse()
    elif how == 0:
        arg.clear()
    elif how == 1:
        arg.reverse()
        arg.append(arg[0] if arg else 1)
    elif how == 2:
        arg[:] = [None] * len(arg)
    else:
        del arg[::2]


@facet('C27', lambda: st.tuples(st.lists(st.sampled_from(sorted(TAKING)), min_size=1, max_size=3), st.one_of(gen.integers(1, 5), gen.keys()), gen.integers(0, 300), gen.blobs(0, 30), gen.integers(0, 3)), 2500, 'an operation that takes the buffer', shards=8,
       corpus=lambda: [([n], k, f, b'0123456789', how) for n in sorted(TAKING) for k, f in ((7, 3), (2 ** 255 - 19, 2)) for how in range(4)])
def reused_buffers(c, case):
    """a buffer or list given to an operation is neither changed nor kept: the caller may use it for something else"""
    names, k, f, b, how = case
    results = []
    for name in names:
        make, call = TAKING[name]
        arg, kept = make(k, f, b), make(k, f, b)
        try:
            res = call(arg)
        except (TypeError, ValueError, Exception) as e:
            # an operation which does not take this kind of buffer refuses it and leaves it alone
            c.eq(plain(arg), plain(kept), 'the argument refused by %s (%r)' % (name, e))
            continue
        c.eq(plain(arg), plain(kept), 'the argument of %s' % name)
        view = picture(res)
        overwrite(arg, how)
        c.eq(picture(res), view, 'the result of %s after its argument was used for something else' % name)
        results.append((name, res, view, make, call))
        c.nontrivial()
        c.label(name)
    for name, res, view, make, call in results:
        c.eq(picture(res), view, 'the result of %s later' % name)
        c.eq(picture(call(make(k, f, b))), view, '%s with an equal argument again' % name)


# ---------------------------------------------------------------- C05

class Num:
    def __init__(self, v=0):
        self.v = v

    def Serialize(self, writer):
        writer.WriteUInt64(self.v)

    def Deserialize(self, reader):
        self.v = reader.ReadUInt64()


EDITS = ['change', 'exchange', 'rotate', 'reverse middle', 'double', 'bit', 'case']


def edited(hs, how, i, j):
    """another list which agrees with the given one in its first and last elements and its length"""
    hs = list(hs)
    n = len(hs)
    if n < 4:
        return hs
    i, j = 1 + i % (n - 2), 1 + j % (n - 2)
    if how == 'change':
        hs[i] = bytes(b ^ 0xff for b in hs[i])
    elif how == 'exchange':
        hs[i], hs[j] = hs[j], hs[i]
    elif how == 'rotate':
        hs[1:-1] = hs[1 + i % (n - 2):-1] + hs[1:1 + i % (n - 2)]
    elif how == 'reverse middle':
        hs[1:-1] = hs[-2:0:-1]
    elif how == 'double':
        hs[i] = hs[j]
    else:
        hs[i] = hs[i][:15] + bytes([hs[i][15] ^ 1 << j % 8]) + hs[i][16:]
    return hs


@facet('C05', lambda: st.tuples(st.sampled_from(['hashes', 'hashes', 'uints', 'uints', 'numbers', '2000']), st.lists(gen.fixed(32), min_size=2, max_size=6), st.one_of(gen.integers(4, 12), st.sampled_from([0xfc, 0xfd, 300])), st.sampled_from(EDITS), gen.integers(0, 2000), gen.integers(0, 2000), st.booleans()), 900, 'the two lists differ', shards=4,
       corpus=lambda: [('2000', [bytes([1]) * 32, bytes(range(32))], 4, how, i, 900, False) for how in EDITS for i in (3, 1500)])
def related_lists(c, case):
    """lists that differ only in the middle, written and read one after the other: first, second, first again"""
    kind, base, n, how, i, j, same_object = case
    a = grow((base, 2000 if kind == '2000' else n))
    b = edited(a, how, i, j)
    if kind == 'uints':
        # (values of which every byte is a hexadecimal digit: KF1)
        a, b = ([bytes([h[0] | 0x80]) + h[1:] if findings.hex_looking(h) else h for h in x] for x in (a, b))
    arg = []
    for hs in (a, b, a):
        s = io.BytesIO()
        w = BinaryWriter(s)
        head = ref.varint(len(hs))
        if kind in ('hashes', '2000'):
            items = [h.hex() for h in hs]
            enc = b''.join(h[::-1] for h in hs)
        elif kind == 'uints':
            items = [UInt256(data=h) for h in hs]
            enc = b''.join(hs)
        else:
            items = [Num(int.from_bytes(h[12:20], 'little')) for h in hs]
            enc = b''.join(h[12:20] for h in hs)
        if same_object:
            # the same list object with other contents
            arg[:] = items
            items = arg
        if kind == '2000':
            w.Write2000256List(items)
            head = b''
        elif kind == 'hashes':
            w.WriteHashes(items)
        else:
            w.WriteSerializableArray(items)
        c.true(s.getvalue() == head + enc, 'a list that differs from an earlier one (%s) is written as another one' % how)
        s = io.BytesIO((head + enc) if kind != '2000' else enc.hex().encode())
        r = BinaryReader(s)
        if kind == '2000':
            got = [bytes.fromhex(x.decode()) for x in r.Read2000256List()]
        elif kind == 'hashes':
            got = [bytes.fromhex(x) for x in r.ReadHashes()]
        elif kind == 'uints':
            got = [bytes(x.ToArray()) for x in r.ReadSerializableArray('neocore.UInt256.UInt256')]
        else:
            got = [x.v for x in r.ReadSerializableArray(__name__ + '.Num')]
            hs = [x.v for x in items]
        c.true(got == hs, 'a list that differs from an earlier one (%s) is read as another one' % how)
    c.nontrivial(a != b)
    c.label(kind)


# ---------------------------------------------------------------- C16

@facet('C16', lambda: st.tuples(st.one_of(gen.integers(1, 30), gen.keys()), st.booleans(), st.sampled_from([64, 72, 72, 72, 96, 104]), st.sampled_from(['end', 'front', 'front', 'middle', 'two']), st.sampled_from(['zero', 'ones', 'prefix', 'random', 'random', 'point']), st.binary(min_size=64, max_size=64), gen.integers(0, 63), gen.integers(0, 255), st.booleans()), 3000, 'a form that has to be refused', shards=4)
def long_forms(c, case):
    """the forms of FromBytes without a prefix byte: the point is where it belongs, the other bytes do not matter"""
    k, neg, n, where, fill, junk, at, v, buf = case
    Q = ref_point(k, neg)
    raw = ref.sec1(Q, False)[1:]
    rest = {'zero': bytes(64), 'ones': b'\xff' * 64, 'prefix': b'\4' * 64, 'random': junk, 'point': raw}[fill]
    start = {64: 0, 72: 8, 96: 0, 104: 8}[n]
    b = bytearray((rest * 2)[:n])
    if where == 'front':
        b[:64] = raw
    elif where == 'middle':
        b[n // 2 - 32:n // 2 + 32] = raw
    else:
        b[start:start + 64] = raw
    if where == 'two':
        b[start + at] ^= v
    coords = bytes(b[start:start + 64])
    exp = ref.sec1_decode(b'\4' + coords)
    if exp is None and n >= 96:
        return  # (not checked by design)
    arg = bytearray(b) if buf else bytes(b)
    try:
        got = ECDSA.FromBytes_Secp256r1(arg)
    except Exception as e:
        c.true(exp is None, 'FromBytes of %d bytes refuses %s: %r' % (n, bytes(b).hex(), e))
    else:
        if exp is None:
            c.true(got is None, 'FromBytes of %d bytes accepts %s' % (n, bytes(b).hex()))
        else:
            c.eq(xy(got.G), exp, 'FromBytes of %d bytes of %s' % (n, bytes(b).hex()))
    c.eq(bytes(arg), bytes(b), 'argument of FromBytes')
    c.nontrivial(exp is None)
    c.label('%d %s' % (n, 'refused' if exp is None else 'point'))


# ---------------------------------------------------------------- C19

BLANKS = [' ', '\t', '\n', '\r', '\0', '\u00a0', '\u3000', '_', '-', ':', ',', 'x', 'g', '\ufeff', '=']


def near_texts(msg, at, how):
    """texts that are no hexadecimal form of the message but look like one"""
    t = msg.hex()
    ch = BLANKS[how % len(BLANKS)]
    i = at % (len(t) + 1)
    even = i - i % 2
    out = [t + '0', '0' + t, t + t[-1:] if t else '1', t[:i] + 'f' + t[i:], t[:-1] if t else 'a', t[1:] if t else 'b',
           t[:even] + ch + t[even:], t[:i] + ch + t[i:], ch + t, t + ch, ch + t + ch, t[:even] + ch * 2 + t[even:], ch.join(t[a:a + 2] for a in range(0, len(t), 2)) + (ch if len(t) < 4 else ''),
           '0x' + t, '0X' + t, '\\x' + t, "b'" + t + "'", '"' + t + '"', t + 'h', t + '00', '00' + t, t + t if t else '00', t.encode().hex() or '00']
    if t[:1] in '123456789' and t:
        out.append(chr(0x660 + int(t[0])) + t[1:])
        out.append(chr(0xff10 + int(t[0])) + t[1:])
    return out


def meaning(text):
    """the message a text stands for: None if it is no hexadecimal"""
    if len(text) % 2 or any(ch not in '0123456789abcdefABCDEF' for ch in text):
        return None
    return bytes.fromhex(text)


@facet('C19', lambda: st.tuples(gen.keys(), messages(), gen.integers(0, 200), gen.integers(0, 2000), gen.integers(0, 11), st.booleans()), 240, 'every case', shards=8, thorough=12)
def message_texts(c, case):
    """the signature of a message is not accepted for a text that only looks like its hexadecimal form"""
    k, msg, at, how, who, asbytes = case
    sig = sign(c, b32(k), msg, 'hex', who)
    pub = point(ref.pub(k)) if who % 2 else ref.sec1(ref.pub(k))
    api = Crypto if who % 3 else Crypto.Default()
    texts = near_texts(msg, at, how)
    start = how % len(texts)
    for t in (texts[start:] + texts[:start])[:4]:
        if meaning(t) == msg:
            continue
        if asbytes:
            try:
                arg = t.encode('utf-8')
            except UnicodeEncodeError:
                continue
            if arg == msg and meaning(t) is None:
                continue  # (bytes that are no hexadecimal are taken as they are)
        else:
            arg = t
        c.true(api.VerifySignature(arg, sig, pub) is False, 'the signature of %s is accepted for the message text %r' % (msg.hex(), arg))
    c.true(api.VerifySignature(msg.hex(), sig, pub) is True, 'own signature refused')
    c.nontrivial()
