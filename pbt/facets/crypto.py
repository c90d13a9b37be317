"""C19 signatures."""
import hashlib
import json
import os

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet

from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.Cryptography.ECCurve import ECDSA
from neocore.KeyPair import KeyPair

N = ref.P256.n


def b32(v):
    return v.to_bytes(32, 'big')


def digest(msg):
    return hashlib.sha256(msg).digest()


def messages():
    return st.one_of(gen.blobs(0, 40), gen.blobs(0, 40), st.sampled_from([b'', b'\0', b'\0\0', b'00', b'0x00', b'abcd', b'\xff' * 64]), gen.big_blob().map(gen.expand).filter(lambda b: len(b) < 2000), st.sampled_from(gen.crafted('messages')))


def point(Q):
    """the ECPoint of coordinates (or None: infinity)"""
    curve = ECDSA.secp256r1().Curve
    return curve.Infinity if Q is None else curve.point(*Q)


def sign(c, key, msg, form, who):
    priv = {'hex': key.hex(), 'HEX': key.hex().upper(), 'bytes': key, 'bytearray': bytearray(key)}[form % 4 if isinstance(form, int) else form]
    text = msg.hex() if who % 2 else msg.hex().encode()
    if who % 3 == 0:
        text = text.upper()
    api = (Crypto, Crypto.Default(), CryptoInstance())[who % 3]
    before = bytes(priv) if isinstance(priv, bytearray) else priv
    sig = api.Sign(text, priv)
    c.eq(bytes(priv) if isinstance(priv, bytearray) else priv, before, 'the key passed to Sign')
    c.true(isinstance(sig, (bytes, bytearray)), 'signature is a %s' % type(sig).__name__)
    c.eq(len(sig), 64, 'length of the signature')
    return bytes(sig)


FORMS = ['hex', 'HEX', 'bytes', 'bytearray']


def saved_cases():
    """messages and keys whose signature starts with zero bytes (found by search, kept in sigs.json)"""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sigs.json')
    return [(int(k, 16), bytes.fromhex(m)) for k, m in json.load(open(path))] if os.path.exists(path) else []


@facet('C19', lambda: st.tuples(gen.keys(), gen.keys(), messages(), messages(), st.sampled_from(FORMS), st.sampled_from(FORMS), gen.integers(0, 5), gen.integers(0, 5)), 4000,
       'two different messages and two different keys', shards=8, thorough=15,
       corpus=lambda: [(k, k + 1, m, m + b'\0', 'hex', 'bytes', i % 6, 1) for i, (k, m) in enumerate(saved_cases())] + [(k, 1, b'abc', b'', 'hex', 'hex', 1, 1) for k in gen.special_keys()]
       + [(5 + i, 1, m, b'', FORMS[i % 4], 'hex', i % 6, 1) for i, m in enumerate(gen.crafted('messages'))])
def signing(c, case):
    """signatures are deterministic, valid by the reference verifier, and no nonce is used twice"""
    k1, k2, m1, m2, f1, f2, w1, w2 = case
    k2 = k2 % N or 1
    key = b32(k1)
    sig = sign(c, key, m1, f1, w1)
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    c.true(ref.ecdsa_verify(ref.pub(k1), digest(m1), r, s), 'signature %s is not valid for the message' % sig.hex())
    other = sign(c, b32(k2), m2, f2, w2)
    c.eq(sign(c, key, m1, f2, w2), sig, 'signature made again')
    if k1 != k2 or m1 != m2:
        c.true(other[:32] != sig[:32], 'nonce used twice: key %x message %s and key %x message %s' % (k1, m1.hex(), k2, m2.hex()))
    third = sign(c, key, m2, f1, w1)
    if m1 != m2:
        c.true(third[:32] != sig[:32], 'nonce used twice by key %x: messages %s and %s' % (k1, m1.hex(), m2.hex()))
    c.nontrivial(k1 != k2 and m1 != m2)
    if sig[0] == 0:
        c.label('r starts with a zero byte')
    if sig[32] == 0:
        c.label('s starts with a zero byte')


def key_forms(Q):
    """the supported forms of a public key"""
    comp = ref.sec1(Q)
    return {'point': lambda: point(Q), 'bytes': lambda: comp, 'bytearray': lambda: bytearray(comp),
            'decoded': lambda: ECDSA.decode_secp256r1(comp.hex()).G, 'raw': lambda: ECDSA.FromBytes_Secp256r1(ref.sec1(Q, False)[1:]).G}


KEY_FORMS = ['point', 'bytes', 'bytearray', 'decoded', 'raw']
MSG_FORMS = ['hex', 'hexbytes', 'HEX', 'raw', 'rawarray', 'text']


def verify(c, msg, sig, pub, mform, who, positional=True):
    """VerifySignature in one of its forms; the arguments must survive"""
    if mform == 'text':
        try:
            arg, unhex = msg.decode('utf-8'), False
        except UnicodeDecodeError:
            arg, unhex = msg, False
    else:
        arg, unhex = {'hex': (msg.hex(), True), 'hexbytes': (msg.hex().encode(), True), 'HEX': (msg.hex().upper(), True), 'raw': (msg, False), 'rawarray': (bytearray(msg), False)}[mform]
    api = Crypto if who % 2 else Crypto.Default()
    if unhex and who % 4 < 2:
        res = api.VerifySignature(arg, sig, pub)
    elif who % 3:
        res = api.VerifySignature(arg, sig, pub, unhex)
    else:
        res = api.VerifySignature(arg, sig, pub, unhex=unhex)
    c.true(res is True or res is False, 'VerifySignature returns %r' % (res,))
    return res


@facet('C19', lambda: st.tuples(gen.keys(), messages(), st.sampled_from(FORMS), st.sampled_from(KEY_FORMS + ['pair']), st.sampled_from(MSG_FORMS), gen.integers(0, 11), st.booleans()), 1300,
       'message of at least one byte', shards=8, thorough=12,
       corpus=lambda: [(k, m, 'hex', KEY_FORMS[i % 5], MSG_FORMS[i % 6], i % 12, bool(i % 2)) for i, (k, m) in enumerate(saved_cases() + [(11, m) for m in gen.crafted('messages')])])
def own_signature(c, case):
    """a signature is accepted for its message and key in every form"""
    k, msg, form, kform, mform, who, mutable = case
    sig = sign(c, b32(k), msg, form, who)
    pub = KeyPair(b32(k)).PublicKey if kform == 'pair' else key_forms(ref.pub(k))[kform]()
    arg = bytearray(sig) if mutable else sig
    c.true(verify(c, msg, arg, pub, mform, who), 'own signature refused: key %x message %s (%s key, %s message)' % (k, msg.hex(), kform, mform))
    c.eq(bytes(arg), sig, 'the signature after verifying')
    c.nontrivial(len(msg) > 0)
    c.label(kform + ' ' + mform)


MUTATIONS = ['bit', 'byte', 'swap', 's', 'r+n', 's+n', 'const', 'cut', 'extend', 'front', 'negkey', 'otherkey', 'offcurve', 'infinity', 'badbytes', 'badlen',
             'msgbit', 'msgcut', 'msgext', 'msghex', 'infsum', 'doubling', 'refsig', 'other', 'rzero', 'der']


@st.composite
def verdict_case(draw):
    k = draw(gen.keys())
    msg = draw(messages())
    nonce = draw(gen.keys())
    mut = draw(st.sampled_from(MUTATIONS))
    a = draw(gen.integers(0, 600))
    b = draw(gen.integers(0, 255))
    extra = draw(gen.blobs(1, 4))
    return k, msg, nonce, mut, a, b, extra, draw(st.sampled_from(KEY_FORMS)), draw(st.sampled_from(MSG_FORMS)), draw(gen.integers(0, 11)), draw(st.booleans())


@facet('C19', verdict_case, 1300, 'the verdict of the reference is false, or a signature not made by Sign is valid', shards=8, thorough=12)
def verdicts(c, case):
    """the answer is that of the reference verifier for any message, signature and key"""
    k, msg, nonce, mut, a, b, extra, kform, mform, who, mutable = case
    z = int.from_bytes(digest(msg), 'big')
    R = ref.pub(nonce)
    r = R[0] % N
    if mut == 'doubling':
        # both terms of the sum computed by a verifier are the same point
        k = z * pow(r, -1, N) % N or 1
        s = 2 * z * pow(nonce, -1, N) % N
    else:
        s = pow(nonce, -1, N) * (z + r * k) % N
    if r == 0 or s == 0:
        return
    Q = ref.pub(k)
    sig = bytearray(b32(r) + b32(s))
    key = None
    if mut == 'bit':
        sig[a % 64] ^= 1 << b % 8
    elif mut == 'byte':
        sig[a % 64] = b
    elif mut == 'swap':
        sig = sig[32:] + sig[:32]
    elif mut == 's':
        sig = b32(r) + b32(N - s)
    elif mut == 'r+n':
        v = (r + N) if r + N < 2 ** 256 else N - r
        sig = b32(v) + b32(s)
    elif mut == 's+n':
        v = (s + N) if s + N < 2 ** 256 else N + a % 1000
        sig = b32(r) + b32(v)
    elif mut == 'const':
        vals = [0, 1, N - 1, N, N + 1, 2 ** 256 - 1, r, s, ref.P256.p, N // 2]
        sig = b32(vals[a % 10]) + b32(vals[b % 10])
    elif mut == 'cut':
        sig = sig[:a % 64]
    elif mut == 'extend':
        sig = sig + extra
    elif mut == 'front':
        sig = extra + bytes(sig)
    elif mut == 'negkey':
        Q = ref.P256.neg(Q)
    elif mut == 'otherkey':
        Q = ref.pub((k + a + 1) % N or 1)
    elif mut == 'offcurve':
        key = point((Q[0], (Q[1] + 1 + a) % ref.P256.p))
    elif mut == 'infinity':
        key = point(None)
    elif mut == 'badbytes':
        e = bytearray(ref.sec1(Q))
        if a % 3 == 0:
            e[0] = b
        elif a % 3 == 1:
            e[1:] = b32(ref.P256.p + b)
        else:
            e[1 + b % 32] ^= 1 << a % 8
        Q = ref.sec1_decode(bytes(e)) if len(e) == 33 else None
        if Q == 'inf':
            Q = None
        key = bytes(e)
    elif mut == 'badlen':
        key = (ref.sec1(Q) * 4)[:[0, 1, 2, 20, 31, 32, 34, 35, 66, 99, 100][a % 11]]
    elif mut == 'msgbit' and msg:
        m = bytearray(msg)
        m[a % len(m)] ^= 1 << b % 8
        msg = bytes(m)
    elif mut == 'msgcut':
        msg = msg[:a % (len(msg) + 1)]
    elif mut == 'msgext':
        msg = msg + extra if a % 2 else extra + msg
    elif mut == 'msghex':
        msg = msg.hex().encode()
    elif mut == 'infsum':
        # the sum of the two terms is the point at infinity
        r = -z * pow(k, -1, N) % N
        sig = b32(r) + b32(s)
    elif mut == 'other':
        sig = extra * (64 // len(extra) + 1)
        sig = sig[:64]
    elif mut == 'rzero':
        sig = b32(0) + b32(s) if a % 2 else b32(r) + b32(0)
    elif mut == 'der':
        der = b'\x02\x20' + b32(r) + b'\x02\x20' + b32(s)
        sig = b'\x30' + bytes([len(der)]) + der
    sig = bytes(sig)
    if mut in ('offcurve', 'infinity', 'badlen'):
        exp = False
    else:
        exp = len(sig) == 64 and Q is not None and ref.ecdsa_verify(Q, digest(msg), int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'))
        if key is None:
            key = key_forms(Q)[kform]()
    got = verify(c, msg, bytearray(sig) if mutable else sig, key, mform, who)
    c.eq(got, exp, 'verdict on %s key %x message %s signature %s' % (mut, k, msg.hex(), sig.hex()))
    c.nontrivial(not exp or mut in ('s', 'refsig', 'doubling'))
    c.label('%s %s' % (mut, exp))


def on_x(x):
    """the point with the least x coordinate not below x (which is below the field size), if the curve has one nearby"""
    for d in range(40):
        P = ref.P256.lift(x + d, 0) if x + d < ref.P256.p else None
        if P is not None:
            return P


SMALL_AT = [1, 2, 5, 255, 2 ** 16, 2 ** 64 - 1, 2 ** 128, 2 ** 159, 2 ** 200 + 3, 2 ** 223]


@facet('C19', lambda: st.tuples(gen.keys(), messages(), st.sampled_from(['r small', 's small', 'r wraps', 's large', 'both small']), st.one_of(st.sampled_from(SMALL_AT), gen.integers(1, 2 ** 223)), st.booleans(),
                                st.sampled_from(KEY_FORMS), st.sampled_from(MSG_FORMS), gen.integers(0, 11)), 240, 'every case', shards=8, thorough=24, seq=0,
       corpus=lambda: [(7, b'abc', kind, v, bool(i % 2), KEY_FORMS[i % 5], MSG_FORMS[i % 6], i % 12) for i, (kind, v) in enumerate((kind, v) for kind in ('r small', 's small', 'r wraps', 's large', 'both small') for v in SMALL_AT)])
def crafted_numbers(c, case):
    """signatures with a very small or very large number (the key is made to fit); the same signature with the group order added is never valid"""
    k, msg, kind, v, odd, kform, mform, who = case
    z = int.from_bytes(digest(msg), 'big')
    if kind in ('s small', 's large'):
        R = ref.pub(k)
        r, s = R[0] % N, v if kind == 's small' else N - v
    else:
        R = on_x(v if kind != 'r wraps' else N + v % (ref.P256.p - N - 50))
        if R is None:
            return
        r, s = R[0] % N, v if kind == 'both small' else k
    R = ref.P256.neg(R) if R[1] % 2 != odd else R
    # the key for which this signature is right
    Q = ref.P256.add(ref.P256.mul(s * pow(r, -1, N) % N, R), ref.P256.mul(-z * pow(r, -1, N) % N, ref.P256.G))
    if Q is None or not r or not s:
        return
    pub = key_forms(Q)[kform]()
    for a, b in ((r, s), (r + N, s), (r, s + N), (r + N, s + N), (N - r, s), (r, N - s)):
        if max(a, b) < 2 ** 256:
            exp = ref.ecdsa_verify(Q, digest(msg), a, b)
            got = verify(c, msg, b32(a) + b32(b), pub, mform, who)
            c.eq(got, exp, 'verdict on r %x s %x (%s) key (%x,%x) message %s' % (a, b, kind, Q[0], Q[1], msg.hex()))
            c.label('%s %s' % (kind, exp))
    c.nontrivial()


def long_messages():
    return st.tuples(messages(), st.sampled_from([0, 0, 101, 128, 200, 300, 1000])).map(lambda t: (t[0] or b'\0') * (t[1] // (len(t[0]) or 1) + 1) if t[1] else t[0])


@facet('C19', lambda: st.tuples(st.lists(gen.keys(), min_size=2, max_size=2), st.booleans(), st.lists(long_messages(), min_size=2, max_size=2),
                                st.sampled_from(KEY_FORMS), st.lists(st.tuples(gen.integers(0, 15), gen.integers(0, 7), st.booleans()), min_size=2, max_size=5), gen.integers(0, 11)), 420,
       'an accepted signature was asked for again with another key, message or signature', shards=8, thorough=12, seq=0)
def cross_verification(c, case):
    """the verdicts on combinations of two keys, two messages and their signatures, asked in any order (the same objects are passed again and again)"""
    keys, near, msgs, kform, order, who = case
    k1, k2 = keys
    if near:
        k2 = N - k1 if who % 2 else k1 % (N - 1) + 1
    keys = [k1, k2]
    pubs = [ref.pub(k) for k in keys]
    args = [key_forms(Q)[kform]() for Q in pubs]
    sigs = {}
    kept = [(a, None if hasattr(a, 'x') else bytes(a)) for a in args]
    seen = set()
    asked = []
    for o, change, again in order:
        if again and change:
            asked.append((o & 3 | (o & 3) << 2, change))  # by the right key for the right message, but changed
        asked.append((o & 3 | (o & 3) << 2 if again else o, 0 if again else change))
    for o, change in asked:
        i, j, x, y = o & 1, o >> 1 & 1, o >> 2 & 1, o >> 3 & 1  # key, message, signer, signed message
        if (x, y) not in sigs:
            sigs[x, y] = bytearray(sign(c, b32(keys[x]), msgs[y], 'hex', who))
            kept.append((sigs[x, y], bytes(sigs[x, y])))
        sig = sigs[x, y]
        if change:
            # a signature which has one half (or nearly all) in common with the right one
            sig = bytearray(sig)
            if change < 4:
                sig[[63, 40, 32][change - 1]] ^= 1
            elif change < 6:
                sig[[0, 31][change - 4]] ^= 1
            else:
                half = bytes(sig[32:] if change == 6 else sig[:32])
                sig = bytearray(half + half)
        exp = ref.ecdsa_verify(pubs[i], digest(msgs[j]), int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'))
        c.eq(verify(c, msgs[j], sig, args[i], MSG_FORMS[who % 6], who), exp, 'verdict on the signature by key %d of message %d, given key %d and message %d' % (x, y, i, j))
        seen.add((exp, i, j, x, y))
        for obj, before in kept:
            if before is not None:
                c.eq(bytes(obj), before, 'an argument after verifying')
    for a, Q in zip(args, pubs):
        if hasattr(a, 'x'):
            c.eq((a.x.value, a.y.value), Q, 'the key after verifying')
    c.nontrivial(any(s[0] for s in seen) and len(seen) > 1)


@facet('C19', lambda: st.tuples(gen.keys(), gen.large_blob(1200000), gen.integers(0, 3), st.sampled_from(MSG_FORMS[:5]), gen.integers(0, 11)), 32, 'every case', shards=8, thorough=8, fuzz=False, seq=0)
def large_messages(c, case):
    """messages of up to a megabyte: every byte counts"""
    k, t, where, mform, who = case
    msg = gen.expand(t)
    sig = sign(c, b32(k), msg, FORMS[where], who)
    Q = ref.pub(k)
    c.true(ref.ecdsa_verify(Q, digest(msg), int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')), 'the signature of %d bytes is not valid' % len(msg))
    pub = key_forms(Q)['bytes']()
    c.true(verify(c, msg, sig, pub, mform, who), 'own signature of %d bytes refused' % len(msg))
    at = [len(msg) - 1, 0, len(msg) // 2, 70000 if len(msg) > 70000 else 65536][where]
    for other in (msg[:at] + bytes([msg[at] ^ 1]) + msg[at + 1:], msg[:-1], msg + b'\0'):
        c.true(not verify(c, other, sig, pub, mform, who), 'the signature of %d bytes is accepted for another message (byte %d changed or length %d)' % (len(msg), at, len(other)))
    c.nontrivial()
